PROPERTY = "C08"
NEEDS = "a query before and one after refreshing the simulation with states of unchanged number of blocks"
BREAKS = "queries are answered from the trajectory before the refresh"
EDITS = [("gcode_interpreter.py", """        segments = unpack_blocklist(blocklist=self.blocklist)
        segm, self.last_index = find_current_segment(path=segments, t=t, last_index=self.last_index)
""", """        # unpacking is expensive, repeat it only for another block list
        if self.last_index is None or len(self.blocklist) != self._unpacked_length:
            self._unpacked = unpack_blocklist(blocklist=self.blocklist)
            self._unpacked_length = len(self.blocklist)
        segments = self._unpacked
        segm, self.last_index = find_current_segment(path=segments, t=t, last_index=self.last_index)
""")]
DEMO = '''
import tempfile
from pyGCodeDecode.gcode_interpreter import setup, simulation

with tempfile.TemporaryDirectory() as d:
    g, p = os.path.join(d, "a.gcode"), os.path.join(d, "p.yaml")
    open(g, "w").write("G1 X10 F600\\nG1 X20 Y5\\n")
    open(p, "w").write("m:\\n  p_vel: 35\\n  p_acc: 100\\n  jerk: 10\\n  vX: 180\\n  vY: 180\\n  vZ: 30\\n  vE: 33\\n  firmware: marlin_jd\\n")
    sim = simulation(gcode_path=g, initial_machine_setup=setup(presets_file=p, printer="m"))
    sim.get_values(0.5)
    for s in sim.states:
        s.state_p_settings.speed = 5
    sim.refresh()
    end = sim.blocklist[-1].segments[-1].t_end
    v, x = sim.get_values(end)
print(x)
sys.exit(0 if abs(x[0] - 20) < 1e-9 and abs(x[1] - 5) < 1e-9 else 1)
'''
