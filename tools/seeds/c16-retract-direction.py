PROPERTY = "C16"
NEEDS = "a velocity with pure retraction"
BREAKS = "the direction of a pure retraction points forward"
EDITS = [("utils.py", "            return self.get_vec(withExtrusion=withExtrusion) / self.get_norm(withExtrusion=withExtrusion)\n", "            return np.asarray(self.get_vec(withExtrusion=withExtrusion)) / self.e\n")]
DEMO = '''
from pyGCodeDecode.utils import velocity

d = velocity(0, 0, 0, -2).get_norm_dir(withExtrusion=True)
print(d)
sys.exit(0 if d[3] == -1 else 1)
'''
