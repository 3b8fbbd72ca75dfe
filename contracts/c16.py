"""C16: vector algebra of vector_4D, velocity and position (utils.py)."""

from .common import *  # noqa: F401,F403
from .common import ANYNUM, FALSE, FLT, INT, NPF, TRUE, ZERO, HArr, HList, Num, Ref, call, cmp, cls, comps, eqn, mul, num, real, sq, ssum, vec, z_and, z_not, z_or, zb
from pyvc.unit import Unit

KINDS = ("vector_4D", "velocity", "position")


def four(I, p):
    return [real(I, p + k, ANYNUM) for k in "xyze"]


def operand(I, kind, form, b):
    if form == "vec":
        return vec(I, kind, b)
    if form == "list":
        return I.new_list(b)
    if form == "tuple":
        return tuple(b)
    return I.new_arr(tuple(Num(x.t, NPF) for x in b))


def check_new(I, r, kind, operands):
    ok = isinstance(r, Ref) and r not in operands and I.get(r).cls is cls(I, "utils:" + kind)
    I.oblige(ok, "result is a new object of the same kind")


def u_addsub(op, kind, form):
    def fn(I):
        a, b = four(I, "a"), four(I, "b")
        A, B = vec(I, kind, a), operand(I, kind, form, b)
        fa = dict(I.get(A).fields)
        fb = I.get(B) if isinstance(B, Ref) else None
        r = I.force(I.binop(op, A, B))
        check_new(I, r, kind, (A, B))
        for x, y, z in zip(a, b, comps(I, r)):
            I.oblige(eqn(I, z, I.binop_num(op, x, y)), f"components of a {op} b")
        I.oblige(same_obj_fields(I, A, fa), "left operand unchanged")
        if fb is not None:
            I.oblige(TRUE if I.get(B) is fb else same_obj_fields(I, B, fb.fields) if form == "vec" else FALSE, "right operand unchanged")
    return fn


def u_scale(op, kind, ty):
    def fn(I):
        a = four(I, "a")
        s = real(I, "s", ty)
        if op == "/":
            I.assume(cmp(I, s, "!=", ZERO))
        A = vec(I, kind, a)
        fa = dict(I.get(A).fields)
        r = I.force(I.binop(op, A, s))
        check_new(I, r, kind, (A,))
        for x, z in zip(a, comps(I, r)):
            if op == "*":
                I.oblige(eqn(I, z, mul(I, x, s)), "every component is multiplied by the factor")
            else:
                I.oblige(eqn(I, mul(I, z, s), x), "every component is divided by the factor")
        I.oblige(same_obj_fields(I, A, fa), "operand unchanged")
    return fn


def is_norm(I, n, xs, what):
    n = num(I, n)
    I.oblige(cmp(I, n, ">=", ZERO), f"{what} is not negative")
    I.oblige(eqn(I, sq(I, n), ssum(I, [sq(I, x) for x in xs])), f"{what} is Euclidean")


def u_norm(kind, with_e):
    def fn(I):
        a = four(I, "a")
        A = vec(I, kind, a)
        n = call(I, A, "get_norm", withExtrusion=with_e)
        is_norm(I, n, a if with_e else a[:3], "norm")
        if not with_e:
            is_norm(I, call(I, A, "get_norm"), a[:3], "norm (default)")
        v = I.iterate(call(I, A, "get_vec", withExtrusion=with_e))
        I.oblige(len(v) == (4 if with_e else 3), "number of vector components")
        for x, y in zip(v, a):
            I.oblige(eqn(I, num(I, x), y), "vector components")
    return fn


def u_dist(with_e, default):
    def fn(I):
        a, b = four(I, "a"), four(I, "b")
        A = vec(I, "position", a)
        if default:
            b = [ZERO] * 4
            d = call(I, A, "get_t_distance", withExtrusion=with_e)
        else:
            d = call(I, A, "get_t_distance", vec(I, "position", b), withExtrusion=with_e)
        k = 4 if with_e else 3
        is_norm(I, d, [I.binop_num("-", x, y) for x, y in zip(a[:k], b[:k])], "distance")
    return fn


def u_dir(with_e):
    def fn(I):
        a = four(I, "a")
        A = vec(I, "velocity", a)
        r = I.force(call(I, A, "get_norm_dir", withExtrusion=with_e))
        s2 = ssum(I, [sq(I, x) for x in a[:3]])
        travels = cmp(I, s2, ">", ZERO)
        extrudes = cmp(I, a[3], "!=", ZERO)
        if r is None:
            I.oblige(z_not(travels), "direction missing only without travel")
            if with_e:
                I.oblige(z_not(extrudes), "direction missing only without extrusion")
            return
        d = [num(I, x) for x in I.iterate(r)]
        I.oblige(len(d) == (4 if with_e else 3), "number of direction components")
        I.oblige(z_or([travels, extrudes if with_e else FALSE]), "no direction for a zero vector")
        if I.branch(travels):
            n = Num(I.sqrt(s2.t), FLT)
            for x, y in zip(d, a):
                I.oblige(eqn(I, mul(I, x, n), y), "direction is the vector over its travel norm")
        else:
            n = Num(I.sqrt(sq(I, a[3]).t), FLT)
            for x, y in zip(d, a):
                I.oblige(eqn(I, mul(I, x, n), y), "direction of pure extrusion")
    return fn


def u_eq(kind, form):
    def fn(I):
        a, b = four(I, "a"), four(I, "b")
        A, B = vec(I, kind, a), operand(I, kind, form, b)
        r = zb(I.truth(I.eq(A, B)))
        same = z_and([eqn(I, x, y) for x, y in zip(a, b)])
        from pyvc.interp import z3

        def far(x, y):
            d, m = I.binop_num("-", x, y).zr(), y.zr()
            return z3.Or(*[z3.And(*[s * d > z3.RealVal("1/10000000") + z3.RealVal("1/10000") * g for g in (m, -m)]) for s in (1, -1)])

        I.oblige(z3.Implies(same, r), "equal vectors compare equal")
        I.oblige(z3.Implies(z_or([far(x, y) for x, y in zip(a, b)]), z3.Not(r)), "different vectors compare unequal")
    return fn


def u_pred(name):
    def fn(I):
        a, b = four(I, "a"), four(I, "b")
        if name in ("not_zero", "v_is_extruding"):
            A = vec(I, "velocity", a)
            if name == "not_zero":
                r, spec = call(I, A, "not_zero"), z_or([cmp(I, x, "!=", ZERO) for x in a])
            else:
                r, spec = call(I, A, "is_extruding"), cmp(I, a[3], ">", ZERO)
        else:
            A, B = vec(I, "position", a), vec(I, "position", b)
            if name == "is_travel":
                r, spec = call(I, A, "is_travel", B), z_or([cmp(I, x, "!=", y) for x, y in zip(a[:3], b[:3])])
            elif name == "is_extruding":
                r, spec = call(I, A, "is_extruding", B), cmp(I, b[3], ">", a[3])
            elif name == "is_extruding_ign":
                r, spec = call(I, A, "is_extruding", B, ignore_retract=True), cmp(I, b[3], ">", a[3])
            else:
                r, spec = call(I, A, "is_extruding", B, ignore_retract=False), cmp(I, b[3], "!=", a[3])
        from pyvc.interp import z3

        t = zb(I.truth(r))
        I.oblige(t == spec if not z3.is_true(t) and not z3.is_false(t) else (spec if z3.is_true(t) else z_not(spec)), f"{name} is true exactly when defined so")
    return fn


def units():
    out = []
    for kind in KINDS:
        for form in ("vec", "list", "tuple", "array"):
            for op in "+-":
                out.append(Unit(f"{kind} {op} {form}", u_addsub(op, kind, form)))
            out.append(Unit(f"{kind} == {form}", u_eq(kind, form)))
        for op in "*/":
            for tn, ty in (("int", INT), ("float", FLT), ("float64", NPF)):
                out.append(Unit(f"{kind} {op} {tn}", u_scale(op, kind, ty)))
        for e in (False, True):
            out.append(Unit(f"{kind}.get_norm(withExtrusion={e})", u_norm(kind, e)))
    for e in (False, True):
        out.append(Unit(f"position.get_t_distance({e})", u_dist(e, False)))
        out.append(Unit(f"position.get_t_distance default ({e})", u_dist(e, True)))
        out.append(Unit(f"velocity.get_norm_dir({e})", u_dir(e)))
    for n in ("not_zero", "v_is_extruding", "is_travel", "is_extruding", "is_extruding_ign", "is_extruding_retract"):
        out.append(Unit(n, u_pred(n)))
    return out


TRUSTED = []
