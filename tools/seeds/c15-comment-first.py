PROPERTY = "C15"
NEEDS = "a comment which holds another semicolon"
BREAKS = "the comment text begins after the last semicolon"
EDITS = [("state_generator.py", "arg = string[match_end:]  # special", 'arg = string.split(";")[-1]  # special')]
DEMO = '''
from pyGCodeDecode.state_generator import arg_extract, known_commands

d = arg_extract("G1 X5 ; a ; b", known_commands)
print(d)
sys.exit(0 if d == {"G1": {"X": 5.0}, ";": " a ; b"} else 1)
'''
