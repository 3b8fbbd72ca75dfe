PROPERTY = "C02"
NEEDS = "MKA, a following move that is slower than the incoming one by less than the jerk limit"
BREAKS = "the junction speed exceeds the feedrate of the following move"
EDITS = [("junction_handling.py", "        v_max_junc = min(vel_0.get_norm(), vel_1.get_norm())\n", "        v_max_junc = vel_0.get_norm() if vel_1.get_norm() > 0 else 0\n")]
DEMO = '''
from pyGCodeDecode.junction_handling import junction_handling_MKA
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

def st(x, v):
    return state(position(x, 0, 0, 0), state.p_settings(p_acc=500, jerk=10, vX=100, vY=100, vZ=100, vE=100, speed=v))

a, b, c = st(0, 50), st(10, 50), st(20, 45)
a.next_state, b.prev_state, b.next_state, c.prev_state = b, a, c, b
v = junction_handling_MKA(a, b).get_junction_vel()
print("junction speed", v)
sys.exit(0 if v <= 45 + 1e-9 else 1)
'''
