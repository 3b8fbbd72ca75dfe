PROPERTY = "C13"
NEEDS = "a single move which passes the whole control volume, beginning and ending outside of it"
BREAKS = "entry and exit of moves through the volume are not reported"
EDITS = [("tools.py", "        if intersect_possible(p_eval0=p_eval_A, p_eval1=p_eval_B):", "        if point_inside(p_eval_A) != point_inside(p_eval_B) and intersect_possible(p_eval0=p_eval_A, p_eval1=p_eval_B):")]
DEMO = '''
import contextlib
import tempfile
from pyGCodeDecode.gcode_interpreter import setup, simulation
from pyGCodeDecode.tools import write_submodel_times

d = tempfile.mkdtemp()
p = os.path.join(d, "p.gcode")
open(p, "w").write("G90\\nM83\\nG1 X10 Y3 Z1 F1200\\nG1 X-10 Y3 E1\\nG1 X0\\n")
y = os.path.join(d, "s.yaml")
open(y, "w").write("m:\\n  p_vel: 35\\n  p_acc: 1000\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  nozzle_diam: 0.4\\n  filament_diam: 1.75\\n  firmware: marlin_jd\\n")
with open(os.devnull, "w") as f, contextlib.redirect_stdout(f):
    s = setup(presets_file=y, printer="m")
    s.set_initial_position({"X": 20.0, "Y": 3.0, "Z": 1.0, "E": 0.0})
    sim = simulation(gcode_path=p, initial_machine_setup=s)
    r = write_submodel_times(sim, [0, 3, 1], 4, 2, 2, filename=None)
print(r)
sys.exit(0 if r["n_filaments"] == 2 and len(r["time_out"]) == 1 else 1)
'''
