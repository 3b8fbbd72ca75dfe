PROPERTY = "C13"
NEEDS = "the distance asked for is exactly the length of the block"
BREAKS = "the far end of a block is rejected although it lies within the block"
EDITS = [("planner_block.py", "            if dist_local <= cum_dist:\n                segm_local_dist", "            if dist_local < cum_dist:\n                segm_local_dist")]
DEMO = '''
from pyGCodeDecode.planner_block import planner_block
from pyGCodeDecode.utils import position, segment, velocity

b = planner_block.__new__(planner_block)
b.segments = [segment(0, 2, position(0, 0, 0, 0), velocity(0, 0, 0, 0), position(2, 0, 0, 1), velocity(2, 0, 0, 1)),
              segment(2, 3, position(2, 0, 0, 1), velocity(2, 0, 0, 1), position(4, 0, 0, 2), velocity(2, 0, 0, 1))]
try:
    t = float(b.inverse_time_at_pos(4.0))
except ValueError as e:
    print(e)
    sys.exit(1)
sys.exit(0 if abs(t - 3) < 1e-9 else 1)
'''
