PROPERTY = "C18"
NEEDS = "two unsupported commands on one line"
BREAKS = "only the first unsupported command of a line is reported"
EDITS = [("state_generator.py", "                unsupported_commands_found.append(key)\n", "                unsupported_commands_found.append(key)\n                break\n")]
DEMO = '''
from pyGCodeDecode.state_generator import check_for_unsupported_commands

d = check_for_unsupported_commands([{"G28": {"X": 0.0}, "G29": {}, "line_number": 1}, {"G29": {}, "line_number": 2}])
print(d)
sys.exit(0 if d == {"G28": 1, "G29": 2} else 1)
'''
