"""C05: positions follow the modal semantics."""

from pyvc.unit import Unit
from .states import StateLoop, u_states


def units():
    return [Unit("positions" + (" with a layer cue" if cue else ""), u_states(("position",), cue), loops=[StateLoop()], merge=True) for cue in (False, True)]
