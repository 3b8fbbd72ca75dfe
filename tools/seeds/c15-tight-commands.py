PROPERTY = "C15"
NEEDS = "a command without arguments directly followed by another command, without a space"
BREAKS = "the first command takes the arguments of the second"
EDITS = [("state_generator.py", "filter(lambda x: x >= num, lst)", "filter(lambda x: x > num, lst)")]
DEMO = '''
from pyGCodeDecode.state_generator import arg_extract, known_commands

d = arg_extract("G28G1 X5", known_commands)
print(d)
sys.exit(0 if d == {"G28": {}, "G1": {"X": 5.0}} else 1)
'''
