PROPERTY = "C09"
NEEDS = "an initial position given as dictionary in a unit system other than SImm"
BREAKS = "the extrusion coordinate of the initial position is stored unscaled"
EDITS = [("gcode_interpreter.py", "                self.initial_position[key] = scaling * initial_position[key]\n", "                self.initial_position[key] = initial_position[key] * (1.0 if key == \"E\" else scaling)\n")]
DEMO = '''
from pyGCodeDecode.gcode_interpreter import setup

s = setup.__new__(setup)
s.available_unit_systems = {"SI": 1e3, "SImm": 1.0, "inch": 25.4}
s.input_unit_system = "SImm"
s.initial_position = {"X": 0, "Y": 0, "Z": 0, "E": 0}
s.set_initial_position({"X": 1, "Y": 2, "Z": 3, "E": 4}, input_unit_system="inch")
print(s.initial_position)
sys.exit(0 if s.initial_position == {"X": 25.4, "Y": 50.8, "Z": 25.4 * 3, "E": 101.6} else 1)
'''
