PROPERTY = "C01"
NEEDS = "an extrusion-only move long enough for a cruise phase after a braking ramp that is a retraction"
BREAKS = "the braking phase of a pure retraction is dropped, so the move does not end at the commanded position"
EDITS = [("planner_block.py", """            segment_C = segment(
                t_begin=t2, t_end=t3, pos_begin=pos_begin, pos_end=pos_end, vel_begin=vel_begin, vel_end=vel_end
            )
            if pos_end.is_travel(pos_begin) or pos_end.is_extruding(pos_begin, ignore_retract=False):
                self.segments.append(segment_C)

            self.blocktype = "trapezoid"
""", """            segment_C = segment(
                t_begin=t2, t_end=t3, pos_begin=pos_begin, pos_end=pos_end, vel_begin=vel_begin, vel_end=vel_end
            )
            if pos_end.is_travel(pos_begin) or pos_begin.is_extruding(pos_end):
                self.segments.append(segment_C)

            self.blocktype = "trapezoid"
""")]
DEMO = '''
from pyGCodeDecode.planner_block import planner_block
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

s = state.p_settings(p_acc=500, jerk=10, vX=100, vY=100, vZ=100, vE=100, speed=20)
a, b = state(position(1, 2, 3, 9), s), state(position(1, 2, 3, 4), s)
a.next_state, b.prev_state = b, a
p = planner_block(state=b, prev_block=None)
end = p.segments[-1].pos_end
print(end)
sys.exit(0 if abs(end.e - 4) < 1e-9 else 1)
'''
