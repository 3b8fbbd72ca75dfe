PROPERTY = "C11"
NEEDS = "a move that retracts material while travelling (wipe)"
BREAKS = "the travel distance of a wipe includes its retraction"
EDITS = [("planner_block.py", "        return self.state_A.state_position.get_t_distance(self.state_B.state_position)\n", "        return self.state_A.state_position.get_t_distance(self.state_B.state_position, withExtrusion=not self.is_extruding)\n")]
DEMO = '''
import tempfile
from pyGCodeDecode.gcode_interpreter import setup, simulation
from pyGCodeDecode.tools import save_layer_metrics

with tempfile.TemporaryDirectory() as d:
    g, p = os.path.join(d, "a.gcode"), os.path.join(d, "p.yaml")
    open(g, "w").write(";L\\nG1 X10 E5 F600\\nG1 X14 E2\\n")
    open(p, "w").write("m:\\n  p_vel: 35\\n  p_acc: 100\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  firmware: marlin_jd\\n")
    sim = simulation(gcode_path=g, initial_machine_setup=setup(presets_file=p, printer="m", layer_cue="L"))
    r = save_layer_metrics(sim, filepath=None)
print(r)
sys.exit(0 if abs(sum(r[2]) - 14) < 1e-9 else 1)
'''
