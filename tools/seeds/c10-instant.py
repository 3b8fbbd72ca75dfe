PROPERTY = "C10"
NEEDS = "a trajectory with a phase of zero duration (a dwell of no time)"
BREAKS = "the entry of a phase of zero duration is missing from the event series"
EDITS = [("abaqus_file_generator.py", """        pos.append(segment.pos_end.get_vec(withExtrusion=True))
        time.append(segment.t_end)
""", """        if segment.t_end == segment.t_begin:  # nothing happens
            continue
        pos.append(segment.pos_end.get_vec(withExtrusion=True))
        time.append(segment.t_end)
""")]
DEMO = '''
import tempfile
from types import SimpleNamespace
from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series
from pyGCodeDecode.utils import position, segment, velocity

v0, v1 = velocity(0, 0, 0, 0), velocity(1, 0, 0, 1)
a, b = position(0, 0, 0, 0), position(1, 0, 0, 1)
segs = [segment(0, 2, a, v0, b, v1), segment(2, 2, b, v1, b, v0)]
sim = SimpleNamespace(blocklist=[SimpleNamespace(get_segments=lambda: segs)], get_scaling_factor=lambda output_unit_system=None: 1.0)
with tempfile.TemporaryDirectory() as d:
    r = generate_abaqus_event_series(sim, os.path.join(d, "e.inp"))
print(r)
sys.exit(0 if len(r) == 3 else 1)
'''
