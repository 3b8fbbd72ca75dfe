PROPERTY = "C11"
NEEDS = "a layer whose first block is a dwell on the line of a move, or has several phases"
BREAKS = "a layer begins with the last phase of its first block instead of the first"
EDITS = [("tools.py", "            block_begin = block.segments[0].t_begin\n", "            block_begin = block.segments[-1].t_begin\n")]
DEMO = '''
import tempfile
from pyGCodeDecode.gcode_interpreter import setup, simulation
from pyGCodeDecode.tools import save_layer_metrics

with tempfile.TemporaryDirectory() as d:
    g, p = os.path.join(d, "a.gcode"), os.path.join(d, "p.yaml")
    open(g, "w").write("G1 X10 F600\\n;L\\nG1 X14 Y3\\n")
    open(p, "w").write("m:\\n  p_vel: 35\\n  p_acc: 100\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  firmware: marlin_jd\\n")
    sim = simulation(gcode_path=g, initial_machine_setup=setup(presets_file=p, printer="m", layer_cue="L"))
    r = save_layer_metrics(sim, filepath=None)
print(r)
sys.exit(0 if abs(r[1][0] - sim.blocklist[0].segments[-1].t_end) < 1e-9 else 1)
'''
