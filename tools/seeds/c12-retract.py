PROPERTY = "C12"
NEEDS = "a single-phase extruding move in negative direction that is fastest at its beginning"
BREAKS = "the maximum extrusion velocity misses negative velocities at the beginning of a phase"
EDITS = [("planner_block.py", "[abs(ax_vel) for ax_vel in segm.vel_begin.get_vec(withExtrusion=True)]", "[ax_vel for ax_vel in segm.vel_begin.get_vec(withExtrusion=True)]")]
DEMO = '''
from pyGCodeDecode.planner_block import planner_block
from pyGCodeDecode.utils import position, segment, velocity

b = planner_block.__new__(planner_block)
b.is_extruding = True
b.segments = [segment(0, 1, position(0, 0, 0, 0), velocity(-4, 0, 0, 4), position(-3, 0, 0, 3), velocity(-2, 0, 0, 2))]
m = b.extrusion_block_max_vel()
print(m)
sys.exit(0 if list(m) == [4, 0, 0, 4] else 1)
'''
