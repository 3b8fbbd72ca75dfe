PROPERTY = "C14"
NEEDS = "two setups of one process, the first of which sets its initial position through a dictionary"
BREAKS = "the second setup starts at the initial position of the first"
EDITS = [("gcode_interpreter.py", '''        self.initial_position = {
            "X": 0,
            "Y": 0,
            "Z": 0,
            "E": 0,
        }  # default initial pos is zero
        self.setup_dict''', '''        self.initial_position = self.default_position  # default initial pos is zero
        self.setup_dict'''), ("gcode_interpreter.py", '''    """Setup for printing simulation."""
''', '''    """Setup for printing simulation."""

    default_position = {"X": 0, "Y": 0, "Z": 0, "E": 0}
''')]
DEMO = '''
import os, tempfile
from pyGCodeDecode.gcode_interpreter import setup

with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "p.yaml")
    open(p, "w").write("a: {firmware: MKA}\\n")
    s = setup(presets_file=p, printer="a")
    s.set_initial_position({"X": 1, "Y": 2, "Z": 3, "E": 4})
    x = setup(presets_file=p, printer="a").get_dict()["X"]
    print(x)
    sys.exit(0 if x == 0 else 1)
'''
