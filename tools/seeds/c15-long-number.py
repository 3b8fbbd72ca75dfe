PROPERTY = "C15"
NEEDS = "an argument text of more than eight characters"
BREAKS = "the last digit of a long argument text is taken for the line end and lost"
EDITS = [("state_generator.py", "            arg = arg.replace(\"\\n\", \"\")  # remove \\n if argument is not a comment", "            arg = arg[:-1] if len(arg) > 8 else arg.replace(\"\\n\", \"\")  # remove \\n if argument is not a comment")]
DEMO = '''
from pyGCodeDecode.state_generator import arg_extract, known_commands

d = arg_extract("G1 X-123.45678 Y2", known_commands)
print(d)
sys.exit(0 if d == {"G1": {"X": -123.45678, "Y": 2.0}} else 1)
'''
