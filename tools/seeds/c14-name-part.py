PROPERTY = "C14"
NEEDS = "a printer name which is a part of the name in the setup"
BREAKS = "the contradicting printer name is accepted"
EDITS = [("gcode_interpreter.py", 'initial_machine_setup.get_dict()["printer_name"] != machine_name:', 'machine_name not in initial_machine_setup.get_dict()["printer_name"]:')]
DEMO = '''
import os, tempfile
from pyGCodeDecode.gcode_interpreter import setup, simulation

with tempfile.TemporaryDirectory() as d:
    p, g = os.path.join(d, "p.yaml"), os.path.join(d, "g.gcode")
    open(p, "w").write("mk3s: {p_vel: 35, p_acc: 100, jerk: 3, vX: 1, vY: 2, vZ: 3, vE: 4, firmware: MKA}\\n")
    open(g, "w").write("G1 X1 F600\\n")
    s = setup(presets_file=p, printer="mk3s")
    simulation(gcode_path=g, machine_name="mk3s", initial_machine_setup=s)
    try:
        simulation(gcode_path=g, machine_name="mk3", initial_machine_setup=s)
    except ValueError:
        sys.exit(0)
sys.exit(1)
'''
