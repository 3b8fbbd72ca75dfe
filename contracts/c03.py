"""C03: the junction speed is the one of the selected firmware's published model (two travelling moves)."""

from .junction import *  # noqa: F401,F403
from .junction import KINDS, TRAVEL, CalcNext, Chain, J, Walk, half, planned_speed, u_next, u_target
from .c02 import FIRMWARES
from .mka import AxisLoop, jump
from .common import *  # noqa: F401,F403
from .common import FALSE, FLT, INT, NPF, TRUE, ZERO, Num, Poly, cmp, const, eqn, mul, num, sq, ssum, sub, z_and, z_not, z_or
from fractions import Fraction
import math
from pyvc.unit import Unit

ONE, TWO = Num(1, INT), Num(2, INT)
EPS = Fraction(1, 10**9)


def is_min2(I, v, F, squares, what):
    """v is the smallest of F and of the square roots of the squares."""
    v2 = sq(I, v)
    I.oblige(cmp(I, v, ">=", ZERO), what + "not negative")
    I.oblige(cmp(I, v, "<=", F), what + "at most the feedrate")
    for w in squares:
        I.oblige(cmp(I, v2, "<=", w), what + "at most each limit")
    I.oblige(z_or([eqn(I, v, F)] + [eqn(I, v2, w) for w in squares]), what + "one of the limits is attained")


def div(I, a, b):
    return Num(I.div(a.t, b.t), NPF)


def marlin_jd(I, c, j, v):
    co = j.cos(I)
    s = half(I, co, "-") if I.branch(cmp(I, co, "<", ONE)) else ZERO
    lo, hi = (Fraction(repr(math.sin(math.radians(x)))) for x in (9, 81))
    if I.branch(cmp(I, s, "<=", const(lo - EPS))):
        I.oblige(eqn(I, v, ZERO), "Marlin JD: no speed near reversal")
        return
    if I.branch(cmp(I, s, ">=", const(hi + EPS))):
        I.oblige(z_or([eqn(I, v, c.F), z_and([eqn(I, c.jerk, ZERO), eqn(I, v, ZERO)])]), "Marlin JD: full speed when almost straight")
        return
    if not (I.branch(cmp(I, s, ">", const(lo + EPS))) and I.branch(cmp(I, s, "<", const(hi - EPS)))):
        return
    r = div(I, mul(I, mul(I, const(Fraction(4, 10)), sq(I, c.jerk)), s), sub(I, ONE, s))      # a * radius
    is_min2(I, v, c.F, [r], "Marlin JD: ")


def klipper(I, c, j, v):
    co, lim = j.cos(I), const(Fraction(999999, 10**6))
    if I.branch(cmp(I, co, ">", lim)):
        I.oblige(eqn(I, v, ZERO), "Klipper: no speed at reversal")
        return
    if I.branch(cmp(I, co, "<", const(-lim.const))):
        co = const(-lim.const)
    s, k = half(I, co, "-"), half(I, co, "+")
    root2 = Num(I.sqrt(Poly.const(2)), FLT)
    r = div(I, mul(I, mul(I, sq(I, c.jerk), sub(I, root2, ONE)), s), sub(I, ONE, s))
    L = j.trav1 if I.branch(cmp(I, j.trav1, "<=", j.trav2)) else j.trav2
    t = Num(I.div(I.mul(I.mul(c.acc.t, L.t), s.t), k.t).scale(Fraction(1, 2)), NPF)
    is_min2(I, v, c.F, [r, t], "Klipper: ")


def marlin_jerk(I, c, j, v):
    d = [sub(I, x, y) for x, y in zip(j.v1(I)[:3], j.v2(I)[:3])]
    dv = Num(I.sqrt(ssum(I, [sq(I, x) for x in d]).t, "change", True), NPF)
    lim = mul(I, TWO, c.jerk)
    if I.branch(cmp(I, dv, "<=", lim)):
        I.oblige(eqn(I, v, c.F), "Marlin classic jerk: full speed within the jerk limit")
    else:
        I.oblige(eqn(I, mul(I, v, dv), mul(I, c.F, lim)), "Marlin classic jerk: the speed is reduced by twice the jerk over the velocity change")


def mka(I, c, j, v):
    vm = c.F if I.branch(cmp(I, c.F, "<=", j.F2)) else j.F2
    sf = div(I, vm, c.F)
    Js = [jump(I, mul(I, e, sf), x) for e, x in zip(j.v1(I), j.v2(I))]
    lim = mul(I, c.jerk, vm)
    I.oblige(z_and([cmp(I, v, ">=", ZERO), cmp(I, v, "<=", vm)]), "MKA: between zero and the lower feedrate")
    for J_ in Js:
        I.oblige(cmp(I, mul(I, v, J_), "<=", lim), "MKA: no axis jumps by more than the limit")
    I.oblige(z_or([eqn(I, v, vm)] + [z_and([cmp(I, J_, ">", c.jerk), eqn(I, mul(I, v, J_), lim)]) for J_ in Js]), "MKA: the speed is the largest such speed")


MODELS = {"marlin_jd": marlin_jd, "klipper": klipper, "marlin_jerk": marlin_jerk, "MKA": mka}


def u_model(fw):
    def fn(I):
        c = Chain(I, kind=TRAVEL)
        I.st.ghost["next"] = None
        from .junction import moved
        F2 = real(I, "speedN")
        I.assume(cmp(I, F2, ">", ZERO))
        I.st.ghost["next"] = (TRAVEL, moved(I, TRAVEL, [real(I, "d2" + k) for k in "xyze"]), F2)
        v, _ = planned_speed(I, c, fw)
        if v is None:
            I.oblige(FALSE, "the move is planned")
            return
        MODELS[fw](I, c, J(I, c), v)
    return fn


def units():
    w = [Walk(), AxisLoop()]
    out = [Unit("calc_vel_next", u_next, whiles=[Walk()], parts=2)]
    for fw in MODELS:
        out.append(Unit(f"model of {fw}", u_model(fw), whiles=w, contracts=[CalcNext()], parts=4 if fw == "MKA" else 1))
    for fw in FIRMWARES:
        out.append(Unit(f"incoming velocity of {fw}", u_target(fw), whiles=w, contracts=[CalcNext()]))
    return out
