PROPERTY = "C10"
NEEDS = "an explicit tolerance and a slightly larger retraction"
BREAKS = "a retraction beyond the tolerance is flagged as extrusion"
EDITS = [("abaqus_file_generator.py", "        if pos[id + 1][3] - pos[id][3] > tolerance:\n", "        if abs(pos[id + 1][3] - pos[id][3]) > tolerance:\n")]
DEMO = '''
import tempfile
from types import SimpleNamespace
from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
from pyGCodeDecode.utils import position, segment, velocity

v = velocity(1, 0, 0, -1)
segs = [segment(0, 1, position(0, 0, 0, 1), v, position(1, 0, 0, 0), v)]
sim = SimpleNamespace(blocklist=[SimpleNamespace(get_segments=lambda: segs)], get_scaling_factor=lambda output_unit_system=None: 1.0)
with tempfile.TemporaryDirectory() as d:
    r = generate_abaqus_event_series(sim, os.path.join(d, "e.inp"))
print(r)
sys.exit(0 if [x[4] for x in r] == [0, 0] else 1)
'''
