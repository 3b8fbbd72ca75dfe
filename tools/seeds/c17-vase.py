PROPERTY = "C17"
NEEDS = "extrusion during a move with a vertical component"
BREAKS = "the vertical speed is missing in the travel speed"
EDITS = [("gcode_interpreter.py", "np.linalg.norm(curr_val[0][:3])  # calculate feed", "np.linalg.norm(curr_val[0][:2])  # calculate feed")]
DEMO = '''
import math
from pyGCodeDecode.gcode_interpreter import simulation

sim = simulation.__new__(simulation)
sim.get_values = lambda t: ([3.0, 0.0, 4.0, 2.0], [0, 0, 0, 0])
w = sim.get_width(0, 0.2, 1.75)
print(w)
sys.exit(0 if abs(w * 0.2 * 5 - math.pi * 1.75**2 / 4 * 2) < 1e-9 else 1)
'''
