PROPERTY = "C14"
NEEDS = "an initial position given as a dictionary without one of the axes"
BREAKS = "the incomplete position is accepted and the old value of the missing axis is kept"
EDITS = [("gcode_interpreter.py", 'all(key in initial_position for key in ["X", "Y", "Z", "E"])', 'all(key in ["X", "Y", "Z", "E"] for key in initial_position)')]
DEMO = '''
import os, tempfile
from pyGCodeDecode.gcode_interpreter import setup

with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "p.yaml")
    open(p, "w").write("a: {firmware: MKA}\\n")
    s = setup(presets_file=p, printer="a")
    s.set_initial_position({"X": 1, "Y": 2, "Z": 3, "E": 4})
    try:
        s.set_initial_position({"X": 1, "Y": 2, "Z": 3})
    except ValueError:
        sys.exit(0)
sys.exit(1)
'''
