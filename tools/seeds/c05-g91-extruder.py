PROPERTY = "C05"
NEEDS = "G91 without M83, followed by a move with an E word"
BREAKS = "G91 also makes the extruder axis relative"
EDITS = [("state_generator.py", '            virtual_machine["absolute_position"] = False\n', '            virtual_machine["absolute_position"] = False\n            virtual_machine["absolute_extrusion"] = False\n')]
DEMO = '''
from pyGCodeDecode.state_generator import dict_list_traveler

prog = [{"G1": {"E": 1.0}, "line_number": 1}, {"G91": "", "line_number": 2}, {"G1": {"X": 5.0, "E": 1.5}, "line_number": 3}]
e = dict_list_traveler(prog, {})[-1].state_position.e
print(e)
sys.exit(0 if e == 1.5 else 1)
'''
