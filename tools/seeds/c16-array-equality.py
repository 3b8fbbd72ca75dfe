PROPERTY = "C16"
NEEDS = "comparing with a numpy array, list or tuple that differs in the extrusion component only"
BREAKS = "equality with a sequence ignores the extrusion component when it is zero"
EDITS = [("utils.py", """                and np.isclose(self.z, other[2])
                and np.isclose(self.e, other[3])
""", """                and np.isclose(self.z, other[2])
                and (not other[3] or np.isclose(self.e, other[3]))
""")]
DEMO = '''
from pyGCodeDecode.utils import position

sys.exit(1 if position(1, 2, 3, 4) == [1, 2, 3, 0] else 0)
'''
