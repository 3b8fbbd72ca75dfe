"""C06: one state per line, with the settings in force."""

from pyvc.unit import Unit
from .states import StateLoop, u_states


def units():
    return [Unit("states and settings" + (" with a layer cue" if cue else ""), u_states(("settings",), cue), loops=[StateLoop()], merge=True) for cue in (False, True)]
