PROPERTY = "C02"
NEEDS = "Klipper, an incoming move over a straight junction whose direction cosine is exactly one (or rounds beyond it)"
BREAKS = "the limit of the cosine is applied at the wrong end, so a straight junction divides by zero and planning fails"
EDITS = [("junction_handling.py", "        j_cos_theta = max(j_cos_theta, -0.999999)  # limit\n        if j_cos_theta > 0.999999:\n", "        j_cos_theta = max(j_cos_theta, -1.0)  # limit\n        if j_cos_theta > 0.999999:\n")]
DEMO = '''
from pyGCodeDecode.junction_handling import junction_handling_klipper
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

def st(x, v):
    return state(position(x, 0, 0, 0), state.p_settings(p_acc=500, jerk=10, vX=100, vY=100, vZ=100, vE=100, speed=v))

a, b, c = st(0, 50), st(10, 50), st(20, 45)
a.next_state, b.prev_state, b.next_state, c.prev_state = b, a, c, b
try:
    v = junction_handling_klipper(a, b).get_junction_vel()
except Exception as e:
    print(type(e))
    sys.exit(1)
print("junction speed", v)
sys.exit(0 if 0 <= v <= 50 + 1e-9 else 1)
'''
