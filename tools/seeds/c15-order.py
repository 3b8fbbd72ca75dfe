PROPERTY = "C15"
NEEDS = "commands on one line in another order than in the table"
BREAKS = "a command's arguments run to the end of the line when the next command comes earlier in the table"
EDITS = [("state_generator.py", "match_next_start = next_larger(match_start_list, match_end)", "match_next_start = next_larger(match_start_list[matches.index(match) :], match_end)")]
DEMO = '''
from pyGCodeDecode.state_generator import arg_extract, known_commands

d = arg_extract("M204 P500 G1 X5", known_commands)
print(d)
sys.exit(0 if d == {"G1": {"X": 5.0}, "M204": {"P": 500.0}} else 1)
'''
