PROPERTY = "C06"
NEEDS = "a comment which is a part of the layer cue"
BREAKS = "such a comment is counted as a layer change"
EDITS = [("state_generator.py", 'initial_machine_setup["layer_cue"] == new_state.comment:', 'new_state.comment in initial_machine_setup["layer_cue"]:')]
DEMO = '''
from pyGCodeDecode.state_generator import dict_list_traveler

prog = [{";": " LAYER_CHANGE", "line_number": 1}, {";": "LAYER", "line_number": 2}, {";": "LAYER_CHANGE ", "line_number": 3}]
l = dict_list_traveler(prog, {"layer_cue": "LAYER_CHANGE"})[-1].layer
print(l)
sys.exit(0 if l == 2 else 1)
'''
