"""Junction speeds (C02, C03): the states around a junction, and the published models.

State B is node 0 of a chain of later states 1..n; node k lies at B + disp(k).
"""

import math
from fractions import Fraction

import z3

from .move import *  # noqa: F401,F403
from .move import block, segment
from .common import *  # noqa: F401,F403
from .common import (
    ANYNUM, FALSE, FLT, INT, NPF, TRUE, ZERO, HInst, Num, Phi, Poly, PyRaise, Ref, attr, call, cls, cmp, comps, compare, const, eqn, mkstate, mul, num,
    real, settings, sq, ssum, sub, vec, z_and, z_not, z_or, zb,
)
from .traj import Stub, ifun, iz
from pyvc.interp import HavocRead, Lazy
from pyvc.values import BreakEx, ContinueEx, HFrame, PathDead, Unsupported

def zint(name):
    return z3.Function(name, z3.IntSort(), z3.IntSort())


CLASSES = {None: "junction_handling", "marlin_jd": "junction_handling_marlin_jd", "marlin_jerk": "junction_handling_marlin_jerk",
           "klipper": "junction_handling_klipper", "MKA": "junction_handling_MKA"}


TRAVEL, EXTRUDE, NONE = 0, 1, 2
KINDS = {"travel": TRAVEL, "extrusion": EXTRUDE, "no move": NONE}


def moved(I, kind, d):
    """A displacement of this kind."""
    if kind == TRAVEL:
        I.assume(cmp(I, ssum(I, [sq(I, x) for x in d[:3]]), ">", ZERO))
        return d
    if kind == EXTRUDE:
        I.assume(cmp(I, d[3], "!=", ZERO))
        return [ZERO] * 3 + [d[3]]
    return [ZERO] * 4


class Chain:
    """States A, B and the chain behind B."""

    def __init__(self, I, first=False, kind=None):
        self.n = I.int_("later")
        I.assume(self.n.z() >= 0)
        self.acc, self.F, self.jerk = real(I, "acc"), real(I, "speed"), real(I, "jerk")
        I.assume(cmp(I, self.acc, ">", ZERO))
        I.assume(cmp(I, self.F, ">", ZERO))
        I.assume(cmp(I, self.jerk, ">=", ZERO))
        self.pa = [real(I, "a" + k) for k in "xyze"]
        self.kind1 = I.choose([I.bool_("travels"), I.bool_("extrudes"), TRUE]) if kind is None else kind
        self.d1 = moved(I, self.kind1, [real(I, "d" + k) for k in "xyze"])
        self.pb = [I.binop_num("+", x, y) for x, y in zip(self.pa, self.d1)]
        self.df = [ifun("d2" + k) for k in "xyze"]
        self.Ff = ifun("speedN")
        self.kf = zint("kind")
        self.G = z3.Function("chain", z3.IntSort(), z3.BoolSort())     # G(p): the states 1..p-1 lie where B lies
        I.assume(self.G(1))
        I.assume(self.G(0))
        self.nodes = {}
        self.A = None if first else mkstate(I, vec(I, "position", self.pa), settings(I, real(I, "accA"), real(I, "speedA"), real(I, "jerkA")))
        self.B = mkstate(I, vec(I, "position", self.pb), settings(I, self.acc, self.F, self.jerk))
        I.setattr(self.B, "prev_state", self.A)
        I.setattr(self.B, "next_state", self.next_of(I, Poly.const(0)))
        if self.A is not None:
            I.setattr(self.A, "next_state", self.B)
        I.st.ghost[("chain", self.B.id)] = Poly.const(0)
        I.st.ghost["chain"] = self

    def disp(self, I, k):
        """Displacement of node k from B; which kind it is has been decided when the node was made."""
        return moved(I, self.kind(I, k), [Num(Poly.atom(f(iz(k))), FLT) for f in self.df])

    def kind(self, I, k):
        z = self.kf(iz(k))
        I.assume(z3.And(z >= 0, z <= 2))
        return I.choose([z == TRAVEL, z == EXTRUDE, z == NONE])

    def next_of(self, I, k):
        z = iz(k)
        return Phi([(z == self.n.z(), None), (z3.Not(z == self.n.z()), Lazy(lambda J: self.node(J, J.norm(k + Poly.const(1)))))])

    def same_place(self, I, k):
        return self.kf(iz(k)) == NONE

    def node(self, I, k):
        key = ("chainobj", k.key())
        r = I.st.ghost.get(key)
        if r is not None and r.id in I.st.heap:
            return r
        z = iz(k)
        I.assume(self.Ff(z) > 0)
        I.assume(self.G(z + 1) == z3.And(self.G(z), z3.Or(z == 0, self.same_place(I, k)), z < self.n.z()))
        for j in (Poly.const(0),) + tuple(I.st.ghost[("chain", t.id)] for q, t in I.st.ghost.items() if isinstance(q, tuple) and q[0] == "chainobj"):
            w = iz(j)
            I.assume(z3.Implies(z3.And(w < z, self.G(z)), self.G(w + 1)))
            I.assume(z3.Implies(z3.And(z < w, self.G(w)), self.G(z + 1)))
        pos = vec(I, "position", [I.binop_num("+", x, y) for x, y in zip(self.pb, self.disp(I, k))])
        ps = settings(I, real(I, "accN"), Num(Poly.atom(self.Ff(z)), FLT), real(I, "jerkN"))
        s = mkstate(I, pos, ps)
        I.setattr(s, "next_state", self.next_of(I, k))
        for q in (pos, ps, s):
            o = I.get(q)
            I.st.heap[q.id] = HInst(o.cls, o.fields, True, "opaque-fields" if q == s else o.tag)
        I.st.ghost[key] = s
        I.st.ghost[("chain", s.id)] = k
        return s


class Walk:
    """while loop which walks along the chain: every state passed lies where B lies."""

    name = "every state passed so far lies at the junction"

    def match(self, I, s, fr):
        import ast

        if not isinstance(s, ast.While) or s.orelse or "chain" not in I.st.ghost:
            return False
        return len(self.walkers(I, s, fr)) == 1

    def walkers(self, I, s, fr):
        from pyvc.loops import stored_names

        out = []
        vs = I.get(fr).vars
        for nm in stored_names(s.body):
            v = vs.get(nm)
            if isinstance(v, (Phi, Lazy)):
                v = I.force(v)
            if isinstance(v, Ref) and ("chain", v.id) in I.st.ghost:
                out.append((nm, v))
        return out

    def set(self, I, fr, nm, v):
        from pyvc.values import Havoc

        o = I.get(fr)
        vs = dict(o.vars)
        vs[nm] = v
        I.st.heap[fr.id] = HFrame(vs, o.parent, o.qualname)

    def inv(self, c, p):
        return z3.And(iz(p) >= 0, iz(p) <= c.n.z(), c.G(iz(p)))

    def run(self, I, s, fr):
        from pyvc.loops import stored_names
        from pyvc.values import Havoc

        c = I.st.ghost["chain"]
        (nm, v), = self.walkers(I, s, fr)
        I.oblige(self.inv(c, I.st.ghost[("chain", v.id)]), "loop invariant before the search: no state is skipped")
        for x in stored_names(s.body):
            self.set(I, fr, x, Havoc(x))
        p = I.int_("p")
        I.assume(p.z() >= 0)
        I.assume(p.z() <= c.n.z())
        I.assume(c.G(p.z()))
        start = I.st.ghost[("chain", v.id)]
        I.assume(p.z() >= iz(start))
        zero = start.is_zero() and I.branch(p.z() == 0)
        k = Poly.const(0) if zero else p.t
        node = c.B if zero else c.node(I, k)
        self.set(I, fr, nm, node)
        before = dict(I.st.heap)
        if not I.test(I.eval(s.test, fr)):
            return
        try:
            I.exec_block(s.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            return
        w = I.force(I.get(fr).vars[nm])
        if not (isinstance(w, Ref) and ("chain", w.id) in I.st.ghost):
            raise Unsupported("search along the states")
        q = I.st.ghost[("chain", w.id)]
        I.oblige(self.inv(c, q), "loop invariant: no state is skipped")
        I.oblige(iz(q) > iz(k), "the search for the next move advances")
        for i, old in before.items():
            if i != fr.id and I.st.heap.get(i) is not old and I.st.heap.get(i) != old:
                raise Unsupported("search along the states with side effects")
        raise PathDead()


class CalcNext:
    """calc_vel_next: the velocity of the next move that changes the 4D position (zero if there is none)."""

    target = "pyGCodeDecode.junction_handling.junction_handling.calc_vel_next"

    def apply(self, I, v):
        c = I.st.ghost["chain"]
        if I.getattr(v["self"], "state_B") != c.B:
            raise Unsupported("junction behind another state")
        nx = I.st.ghost.get("next")
        if nx is None:
            kind = I.choose([I.bool_("travels next"), I.bool_("extrudes next"), TRUE])
            F2 = real(I, "speedN")
            I.assume(cmp(I, F2, ">", ZERO))
            nx = I.st.ghost["next"] = (kind, moved(I, kind, [real(I, "d2" + k) for k in "xyze"]), F2)
        j = J(I, c)
        I.setattr(v["self"], "t_distance", j.trav2 if j.trav2 is not None else Num(0, NPF))
        return vec(I, "velocity", j.v2(I))


class J:
    """The junction behind B: velocities before and after, in terms of displacements."""

    def __init__(self, I, c):
        self.c = c
        self.trav1 = self.norm3(I, c.d1) if c.kind1 == TRAVEL and c.A is not None else None
        nx = I.st.ghost.get("next")
        if nx is not None:
            self.kind2, self.d2, self.F2 = nx
        else:
            self.kind2, self.d2, self.F2 = self.search(I, c)
        self.trav2 = self.norm3(I, self.d2) if self.kind2 == TRAVEL else None

    def search(self, I, c):
        """The next move: the first state of the chain which lies elsewhere."""
        for k in self.seen(I):
            kind = c.kind(I, k)
            if kind != NONE and I.branch(z3.And(c.G(iz(k)), iz(k) <= c.n.z(), iz(k) >= 1)):
                return kind, c.disp(I, k), Num(Poly.atom(c.Ff(iz(k))), FLT)
        # there is no next move: the code has seen a last state behind which nothing follows and which lies here
        I.oblige(z_or([c.n.z() == 0] + [z3.And(iz(k) == c.n.z(), c.G(iz(k)), c.same_place(I, k)) for k in self.seen(I)]), "the next move that changes the position is considered")
        return NONE, [ZERO] * 4, ZERO

    def seen(self, I):
        return [I.st.ghost[("chain", s.id)] for key, s in I.st.ghost.items() if isinstance(key, tuple) and key[0] == "chainobj"]

    def norm3(self, I, d):
        return Num(I.sqrt(ssum(I, [sq(I, x) for x in d[:3]]).t, "norm"), NPF)

    def cos(self, I):
        """Cosine of the junction angle (180 degrees: straight on)."""
        dot = ssum(I, [mul(I, x, y) for x, y in zip(self.c.d1[:3], self.d2[:3])])
        return Num(I.norm(-I.div(dot.t, I.mul(self.trav1.t, self.trav2.t))), NPF)

    def vel(self, I, d, F, kind, L):
        if kind == NONE:
            return [ZERO] * 4
        if kind == TRAVEL:
            return [Num(I.div(I.mul(F.t, x.t), L.t), NPF) for x in d]
        return [ZERO] * 3 + [Num(I.div(I.mul(F.t, d[3].t), I.abs_poly(d[3].t)), NPF)]

    def v1(self, I):
        return self.vel(I, self.c.d1, self.c.F, self.c.kind1 if self.c.A is not None else NONE, self.trav1)

    def v2(self, I):
        return self.vel(I, self.d2, self.F2, self.kind2, self.trav2)


def u_next(I):
    """The contract of calc_vel_next against the real search along the states."""
    c = Chain(I, kind=NONE)
    o = I.instantiate(cls(I, "junction_handling:junction_handling"), [], {"state_A": c.A, "state_B": c.B})
    v = comps(I, call(I, o, "calc_vel_next"))
    j = J(I, c)
    for x, y in zip(v, j.v2(I)):
        I.oblige(eqn(I, x, y), "velocity of the next move that changes the position")
    t = I.get(o).fields.get("t_distance")
    if t is None:
        raise Unsupported("travel length of the next move")
    I.oblige(eqn(I, num(I, t), j.trav2 if j.trav2 is not None else ZERO), "travel length of the next move")


def u_target(fw):
    """The velocity of the incoming move."""
    def fn(I):
        c = Chain(I)
        o = I.instantiate(cls(I, "junction_handling:" + CLASSES[fw]), [], {"state_A": c.A, "state_B": c.B})
        v = comps(I, call(I, o, "get_target_vel"))
        for x, y in zip(v, J(I, c).v1(I)):
            I.oblige(eqn(I, x, y), "velocity of the incoming move")
    return fn


def planned_speed(I, c, fw):
    """The end speed which the planner requests for the move to B, through the real block constructor.

    Returns None if the constructor asked for no move.
    """
    got = []

    def mm(J, v):
        got.append(v.get("v_end"))
        t0, t1 = real(J, "s0"), real(J, "s1")
        J.assume(cmp(J, t1, ">=", t0))
        J.assume(cmp(J, t0, ">=", ZERO))
        seg = segment(J, t0, t1, vec(J, "position", c.pa), vec(J, "position", c.pb), vec(J, "velocity", [ZERO] * 4), vec(J, "velocity", [real(J, "ve" + k) for k in "xyze"]))
        J.setattr(v["self"], "segments", J.new_list([seg]))

    t = "planner_block.planner_block.move_maker2"
    old = dict(I.contracts)
    s = Stub(t, mm)
    I.contracts[s.target] = s
    try:
        blk = I.instantiate(cls(I, "planner_block:planner_block"), [], {"state": c.B, "prev_block": None, "firmware": fw})
    finally:
        I.contracts = old
    return (num(I, got[0]) if got else None), blk


def junction_speed(I, c, fw):
    """The junction speed as the firmware's class reports it."""
    j = I.instantiate(cls(I, "junction_handling:" + CLASSES[fw]), [], {"state_A": c.A, "state_B": c.B})
    return num(I, call(I, j, "get_junction_vel")), j


def half(I, c_, sign):
    """sqrt((1 +- cos) / 2)"""
    e = I.binop_num(sign, Num(1, INT), c_)
    return Num(I.sqrt(e.t.scale(Fraction(1, 2)), "half"), NPF)


def is_min(I, v, xs):
    return z_and([cmp(I, v, "<=", x) for x in xs] + [z_or([eqn(I, v, x) for x in xs])])
