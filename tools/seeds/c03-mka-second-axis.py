PROPERTY = "C03"
NEEDS = "MKA, a junction where a first axis exceeds the jerk limit and a later axis still exceeds it after the first scaling"
BREAKS = "the second limiting axis replaces the common factor instead of lowering it further, so the first axis jumps by more than the limit"
EDITS = [("junction_handling.py", "                v_factor *= self.jerk / jerk\n", "                v_factor = self.jerk / jerk\n")]
DEMO = '''
from pyGCodeDecode.junction_handling import junction_handling_MKA
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

def st(x, y, v):
    return state(position(x, y, 0, 0), state.p_settings(p_acc=500, jerk=10, vX=100, vY=100, vZ=100, vE=100, speed=v))

a, b, c = st(0, 0, 50), st(30, 40, 50), st(0, 0, 50)
a.next_state, b.prev_state, b.next_state, c.prev_state = b, a, c, b
v = junction_handling_MKA(a, b).get_junction_vel()
jumps = [abs(v * 0.6), abs(v * 0.8)]
print("junction speed", v, "axis jumps", jumps)
sys.exit(0 if max(jumps) <= 10 + 1e-9 else 1)
'''
