PROPERTY = "C08"
NEEDS = "a query inside an acceleration phase shorter than a millisecond"
BREAKS = "velocity and position are not interpolated inside very short phases"
EDITS = [("utils.py", "slope = delt_vel / delt_t if delt_t > 0 else velocity(0, 0, 0, 0)", "slope = delt_vel / delt_t if delt_t > 1e-3 else velocity(0, 0, 0, 0)")]
DEMO = '''
from pyGCodeDecode.utils import position, segment, velocity

s = segment(0, 8e-4, position(0, 0, 0, 0), velocity(0, 0, 0, 0), position(4e-4, 0, 0, 0), velocity(1, 0, 0, 0))
v = s.get_velocity(4e-4)
print(v)
sys.exit(0 if abs(v.x - 0.5) < 1e-9 else 1)
'''
