"""C02: the junction speed lies between zero and the feedrates."""

from .junction import *  # noqa: F401,F403
from .junction import KINDS, CalcNext, Chain, u_next, J, Walk, junction_speed, planned_speed
from .mka import AxisLoop
from .common import *  # noqa: F401,F403
from pyvc.unit import Unit

FIRMWARES = (None, "marlin_jd", "marlin_jerk", "klipper", "MKA")


def u_bounds(fw, kind):
    def fn(I):
        c = Chain(I, kind=kind)
        v, _ = junction_speed(I, c, fw)
        j = J(I, c)
        I.oblige(cmp(I, v, ">=", ZERO), "the junction speed is not negative")
        I.oblige(cmp(I, v, "<=", c.F), "the junction speed does not exceed the feedrate of the incoming move")
        if fw is None or j.trav1 is None:
            I.oblige(eqn(I, v, ZERO), "no junction speed without a firmware model or without incoming travel")
        if fw == "MKA" and j.trav2 is not None:
            I.oblige(cmp(I, v, "<=", j.F2), "the junction speed does not exceed the feedrate of the following move")
        if fw in ("marlin_jd", "klipper") and j.trav2 is None:
            I.oblige(eqn(I, v, ZERO), "no junction speed when no travel follows")
    return fn


def u_first(fw):
    def fn(I):
        c = Chain(I, first=True)
        v, _ = junction_speed(I, c, fw)
        I.oblige(eqn(I, v, ZERO), "no junction speed without an incoming move")
    return fn


def u_planned(fw):
    """The speed which the planner requests for a block, also with a dwell on the line."""
    def fn(I):
        c = Chain(I)
        p = real(I, "pause")
        b = I.bool_("has pause")
        I.assume(cmp(I, p, ">=", ZERO))
        I.setattr(c.B, "pause", Phi([(b, p), (z3.Not(b), None)]))
        v, _ = planned_speed(I, c, fw)
        I.oblige(TRUE if v is not None or c.kind1 == KINDS["no move"] else FALSE, "every move is planned")
        if v is None:
            return
        I.oblige(z_and([cmp(I, v, ">=", ZERO), cmp(I, v, "<=", c.F)]), "the planned speed lies between zero and the feedrate")
        I.oblige(z3.Implies(b, eqn(I, v, ZERO)), "a dwell is a full stop")
    return fn


def units():
    w = [Walk(), AxisLoop()]
    out = [Unit("calc_vel_next", u_next, whiles=[Walk()], parts=4)]
    for fw in FIRMWARES:
        for nm, kind in KINDS.items():
            out.append(Unit(f"junction speed of {fw} after {nm}", u_bounds(fw, kind), whiles=w, contracts=[CalcNext()], parts=6 if fw == "MKA" and kind == 0 else 1))
        out.append(Unit(f"junction speed of {fw} at the first state", u_first(fw), whiles=w, contracts=[CalcNext()]))
        out.append(Unit(f"planned speed with {fw}", u_planned(fw), whiles=w, contracts=[CalcNext()], parts=4 if fw in ("MKA", "klipper") else 1))
    return out
