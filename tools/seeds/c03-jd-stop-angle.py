PROPERTY = "C03"
NEEDS = "Marlin junction deviation, a junction angle between 18 and 20 degrees (nearly a reversal)"
BREAKS = "the planner stops at junctions for which the published model prescribes a finite speed"
EDITS = [("junction_handling.py", "        JD_minAngle = 18\n", "        JD_minAngle = 20\n")]
DEMO = '''
from math import cos, sin, pi, sqrt
from pyGCodeDecode.junction_handling import junction_handling_marlin_jd
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

def st(x, y):
    return state(position(x, y, 0, 0), state.p_settings(p_acc=500, jerk=10, vX=100, vY=100, vZ=100, vE=100, speed=50))

t = 19 * pi / 180
a, b, c = st(0, 0), st(10, 0), st(10 - 10 * cos(t), 10 * sin(t))
a.next_state, b.prev_state, b.next_state, c.prev_state = b, a, c, b
v = junction_handling_marlin_jd(a, b).get_junction_vel()
s = sin(t / 2)
want = min(50, sqrt(0.4 * 100 * s / (1 - s)))
print("junction speed", v, "published", want)
sys.exit(0 if abs(v - want) < 1e-6 else 1)
'''
