"""C07: dwells stand still for exactly the commanded time."""

from .c04 import Align, MoveMaker2, Timeshift, WalkBack, self_check_stub, u_correct
from .plan import FIRMWARES, PLAN_CONTRACTS, Plan, u_plan, u_timeshift
from .states import StateLoop, u_states
from pyvc.unit import Unit


def units():
    out = [Unit("dwell times of the states", u_states(("pause",), False), loops=[StateLoop()], merge=True)]
    out += [Unit(f"dwells planned with {fw}", u_plan(fw, "dwells"), contracts=PLAN_CONTRACTS, loops=[Plan()]) for fw in FIRMWARES]
    # correction: a block which ends at rest is not planned again, and a shift keeps durations
    out.append(Unit("correction of dwells", u_correct, contracts=[MoveMaker2(), Timeshift(), self_check_stub()], whiles=[WalkBack()], loops=[Align()], parts=4,
                    only=("at rest is not planned again", "precondition of planning")))
    out += [Unit(f"timeshift of {m} phases", u_timeshift(m)) for m in (1, 2, 3, 4)]
    return out
