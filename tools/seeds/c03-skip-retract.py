PROPERTY = "C03"
NEEDS = "a travel move followed by a pure retraction and then another travel move"
BREAKS = "the retraction is skipped when the following move is looked up, so the junction is taken at speed although the next motion is the retraction"
EDITS = [("junction_handling.py", "get_t_distance(next_next_state.state_position, withExtrusion=True) > 0", "get_t_distance(next_next_state.state_position) > 0")]
DEMO = '''
from pyGCodeDecode.junction_handling import junction_handling_marlin_jerk
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

def st(x, e):
    return state(position(x, 0, 0, e), state.p_settings(p_acc=500, jerk=4, vX=100, vY=100, vZ=100, vE=100, speed=50))

l = [st(0, 0), st(10, 0), st(10, -2), st(20, -2)]
for p, q in zip(l, l[1:]):
    p.next_state, q.prev_state = q, p
v = junction_handling_marlin_jerk(l[0], l[1]).get_junction_vel()
print("junction speed", v)  # velocity change 50, limit 8
sys.exit(0 if abs(v - 8) < 1e-9 else 1)
'''
