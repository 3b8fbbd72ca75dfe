PROPERTY = "C01"
NEEDS = "a move whose feedrate is lower than the speed carried over the junction from the previous move"
BREAKS = "the move starts above its own feedrate instead of at most at the feedrate"
EDITS = [("planner_block.py", "        v_begin = v_begin if v_begin < v_target else v_target\n", "        v_begin = v_begin if v_begin < 2 * v_target else v_target\n")]
DEMO = '''
from pyGCodeDecode.planner_block import planner_block
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

def st(x, v):
    return state(position(x, 0, 0, 0), state.p_settings(p_acc=500, jerk=10, vX=100, vY=100, vZ=100, vE=100, speed=v))

a, b, c = st(0, 30), st(10, 30), st(40, 20)
a.next_state, b.prev_state, b.next_state, c.prev_state = b, a, c, b
first = planner_block(state=b, prev_block=None, firmware="marlin_jd")
assert abs(first.segments[-1].vel_end.get_norm() - 30) < 1e-9
try:
    second = planner_block(state=c, prev_block=first, firmware="marlin_jd")
except Exception as e:
    print("no profile:", type(e))
    sys.exit(1)
top = max(max(s.vel_begin.get_norm(), s.vel_end.get_norm()) for s in second.segments)
print("fastest", top)
sys.exit(0 if top <= 20 + 1e-9 else 1)
'''
