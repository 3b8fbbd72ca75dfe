"""Symbolic inputs shared by the contracts."""

import z3

from pyvc.interp import FALSE, TRUE, z_and, z_not, z_or, zb
from pyvc.terms import Poly, compare
from pyvc.values import ANYNUM, FLT, INT, NPF, HArr, HInst, HList, Num, Phi, PyRaise, Ref, SStr, SymSeq, Unsupported

P = "pyGCodeDecode."


def real(I, name, ty=FLT):
    """Named symbolic real (named uniquely within the run)."""
    n = I.fresh_name(name)
    v = z3.Real(n)
    I.inputs[name] = v
    return Num(Poly.atom(v), ty)


def const(x, ty=FLT):
    return Num(x, ty)


def cls(I, dotted):
    c = I.member(dotted)
    if c is None:
        raise Unsupported(f"{dotted} not found")
    return c


def vec(I, kind, comps):
    """position / velocity / vector_4D from four Nums, built by the real constructor."""
    return I.instantiate(cls(I, "utils:" + kind), list(comps), {})


def attr(I, obj, path):
    for p in path.split("."):
        obj = I.getattr(obj, p)
    return obj


def comps(I, obj):
    return [I.num(I.force(I.getattr(obj, k))) for k in "xyze"]


def call(I, obj, name, *args, **kw):
    return I.call(I.getattr(obj, name), list(args), kw)


def num(I, v):
    n = I.num(I.force(v))
    if n is None:
        I.oblige(FALSE, "result is a number")
        from pyvc.values import PathDead

        raise PathDead()
    return n


def add(I, a, b):
    return I.binop_num("+", a, b)


def sub(I, a, b):
    return I.binop_num("-", a, b)


def mul(I, a, b):
    return I.binop_num("*", a, b)


def ssum(I, xs):
    r = Num(0, INT)
    for x in xs:
        r = I.binop_num("+", r, x)
    return r


def sq(I, a):
    return I.binop_num("*", a, a)


def eqn(I, a, b):
    return zb(I.cmp_num(a, b, "=="))


def cmp(I, a, op, b):
    return zb(I.cmp_num(a, b, op))


ZERO = Num(0, INT)


def settings(I, acc, speed, jerk, **kw):
    c = I.member("state:state").members["p_settings"]
    d = dict(p_acc=acc, jerk=jerk, vX=real(I, "vmaxX"), vY=real(I, "vmaxY"), vZ=real(I, "vmaxZ"), vE=real(I, "vmaxE"), speed=speed)
    d.update(kw)
    return I.instantiate(c, [], d)


def mkstate(I, pos, p_settings):
    return I.instantiate(cls(I, "state:state"), [], {"state_position": pos, "state_p_settings": p_settings})


def same_obj_fields(I, ref, before):
    """The object's fields are exactly those recorded before (frame condition)."""
    o = I.get(ref)
    if set(o.fields) != set(before):
        return FALSE
    cs = []
    for k, v in before.items():
        w = o.fields[k]
        if v is w or I.same(v, w):
            continue
        cs.append(zb(I.truth(I.eq(v, w))))
    return z_and(cs)
