PROPERTY = "C12"
NEEDS = "an extruding move followed by faster travel of the unextruding kind and an extent with a block whose extrusion is a retraction"
BREAKS = "retracting moves count as extruding, so they widen the extent"
EDITS = [("planner_block.py", """            self.is_extruding = self.state_A.state_position.is_extruding(
                self.state_B.state_position
            )""", """            self.is_extruding = self.state_A.state_position.is_extruding(
                self.state_B.state_position, ignore_retract=False
            )""")]
DEMO = '''
from pyGCodeDecode.planner_block import planner_block
from pyGCodeDecode.state import state
from pyGCodeDecode.utils import position

s = state.p_settings(p_acc=500, jerk=10, vX=100, vY=100, vZ=100, vE=100, speed=20)
a, b = state(position(0, 0, 0, 5), s), state(position(9, 0, 0, 4), s)
a.next_state, b.prev_state = b, a
p = planner_block(state=b, prev_block=None)
print(p.is_extruding)
sys.exit(1 if p.is_extruding else 0)
'''
