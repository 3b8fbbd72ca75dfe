"""The doubly linked list of planner blocks during planning and correction (C04, C07).

Blocks are numbered 0..N-1.  A block is an object whose fields are functions of its number in the current epoch; a loop
begins a new epoch.  Speeds are travel speeds (norms without extrusion).
"""

import ast
from fractions import Fraction

import z3

from .move import *  # noqa: F401,F403
from .move import segment
from .common import *  # noqa: F401,F403
from .common import (
    ANYNUM, FALSE, FLT, INT, NPF, TRUE, ZERO, HArr, HInst, HList, Num, Phi, Poly, PyRaise, Ref, SymSeq, attr, call, cls, cmp, comps, compare, const,
    eqn, mul, num, real, settings, sq, ssum, sub, vec, z_and, z_not, z_or, zb,
)
from .traj import Stub, ifun, iz, raised
from pyvc.interp import Lazy
from pyvc.loops import LoopSpec, base_tag, stored_names
from pyvc.values import BreakEx, ContinueEx, Havoc, HFrame, PathDead, ReturnEx, Unsupported

ONE = Poly.const(1)


class MD:
    """A commanded move: kind ("travel", "extrusion", or the condition that it ends at rest), length, acceleration, feedrate, positions before and after."""

    def __init__(self, kind, D, acc, F, pa, pb):
        self.kind, self.D, self.acc, self.F, self.pa, self.pb = kind, D, acc, F, pa, pb


def velocity_of(I, name, speed, travel=True):
    """A velocity with this travel speed."""
    c = [real(I, name + k, NPF) for k in "xyze"]
    if not travel:
        return vec(I, "velocity", [ZERO] * 3 + [c[3]])
    n = Num(I.sqrt(ssum(I, [sq(I, x) for x in c[:3]]).t, "norm", True), NPF)
    I.assume(eqn(I, n, speed))
    return vec(I, "velocity", c)


def abstract_segments(I, name, tb, te, pa, pb, vb, ve):
    """A list of one or more phases, of which the first beginning and the last end are known."""
    n = I.int_(name + ".phases")
    I.assume(n.z() >= 1)
    c = cls(I, "utils:segment")
    first, last = {"t_begin": tb, "pos_begin": pa, "vel_begin": vb}, {"t_end": te, "pos_end": pb, "vel_end": ve}
    refs = []

    def other(k, nm):
        """The remaining fields of the first and the last phase: the other's if it is the same one."""
        def f(J):
            if not J.branch(n.z() == 1):
                raise Unsupported("a phase in the middle of an abstract block")
            return J.get(refs[1 - k]).fields[nm]
        return Lazy(f)

    refs.append(I.alloc(HInst(c, {**first, **{k: other(0, k) for k in last}}, True, "opaque-fields")))
    refs.append(I.alloc(HInst(c, {**last, **{k: other(1, k) for k in first}}, True, "opaque-fields")))

    def get(J, i):
        i = J.norm(i)
        if i.is_zero():
            return refs[0]
        if J.norm(i + ONE - n.t).is_zero():
            return refs[1]
        return J.alloc(HInst(cls(J, "utils:segment"), {}, True, "opaque-fields"))

    r = I.alloc(HList((), SymSeq(n.t, get, PhasesTag(refs)), "list", True))
    return r


class PhasesTag:
    def __init__(self, refs):
        self.refs = tuple(refs)


class Ends:
    """Times and speeds at both ends of a block, read from its segments."""

    def __init__(self, I, blk):
        s = I.force(I.getattr(blk, "segments"))
        o = I.get(s)
        I.oblige(TRUE if o.items or o.pre is not None else FALSE, "the block has a phase")
        a, b = I.force(I.getitem(s, Num(0, INT))), I.force(I.getitem(s, Num(-1, INT)))
        self.tb, self.te = num(I, attr(I, a, "t_begin")), num(I, attr(I, b, "t_end"))
        self.B, self.E = num(I, call(I, attr(I, a, "vel_begin"), "get_norm")), num(I, call(I, attr(I, b, "vel_end"), "get_norm"))
        self.p0, self.p1 = comps(I, attr(I, a, "pos_begin")), comps(I, attr(I, b, "pos_end"))
        self.v0 = comps(I, attr(I, a, "vel_begin"))


def reach_ok(I, e, b, md):
    """e can be reached from b (or slower): e^2 <= b^2 + 2 a D"""
    return cmp(I, sq(I, e), "<=", I.binop_num("+", sq(I, b), mul(I, mul(I, Num(2, INT), md.acc), md.D)))


class MoveMaker2:
    """move_maker2: one move is planned behind the previous block; only what continuity needs (verified by u_move)."""

    target = "pyGCodeDecode.planner_block.planner_block.move_maker2"

    def apply(self, I, v):
        blk = I.force(v["self"])
        v_end = num(I, v["v_end"])
        B = I.force(I.getattr(blk, "state_B"))
        md = I.st.ghost.get(("move", B.id))
        if md is None:
            raise Unsupported("planning of an unknown block")
        if not isinstance(md.kind, str):
            I.oblige(z_not(md.kind), "a block which ends at rest is not planned again")
        I.oblige(cmp(I, v_end, ">=", ZERO), "precondition of planning: the end speed is not negative")
        prev = I.force(I.getattr(blk, "prev_block"))
        if prev is None:
            t0, v0 = Num(0, INT), ZERO
            I.oblige(TRUE if I.force(I.getattr(blk, "state_A")) is not None else FALSE, "precondition of planning: the move has a beginning")
        else:
            pe = Ends(I, prev)
            t0, v0 = pe.te, pe.E
            for x, y in zip(pe.p1, md.pa):
                I.oblige(eqn(I, x, y), "precondition of planning: the previous block ends where the move begins")
        te = real(I, "mte")
        I.assume(cmp(I, te, ">=", t0))
        if isinstance(md.kind, str) and md.kind == "extrusion":
            I.setattr(blk, "segments", self.mutable(I, abstract_segments(I, "m", t0, te, vec(I, "position", md.pa), vec(I, "position", md.pb), velocity_of(I, "mvb", ZERO, False), velocity_of(I, "mve", ZERO, False))))
            I.setattr(blk, "blocktype", "trapezoid")
            return None
        nb, ne, ve, vc = (real(I, x, NPF) for x in ("nb", "ne", "vew", "v0c"))
        for w, x in ((ve, v_end), (vc, v0)):
            I.assume(z_and([cmp(I, w, "<=", x), cmp(I, w, "<=", md.F), z_or([eqn(I, w, x), eqn(I, w, md.F)])]))
        for g, nm in begin_end(I, nb, ne, vc, ve, md):
            I.assume(g)
        single = I.choose([I.bool_("single phase"), TRUE]) == 0
        I.assume(single_rule(I, nb, vc, ve, md) if single else eqn(I, nb, vc))
        ty = "single"
        if not single:
            b = I.bool_("triangle")
            ty = Phi([(b, "triangle"), (z3.Not(b), "trapezoid")])
        I.setattr(blk, "segments", self.mutable(I, abstract_segments(I, "m", t0, te, vec(I, "position", md.pa), vec(I, "position", md.pb), velocity_of(I, "mvb", nb), velocity_of(I, "mve", ne))))
        I.setattr(blk, "blocktype", ty)
        return None

    def mutable(self, I, lst):
        """The block's own list: a dwell may be appended."""
        o = I.get(lst)
        I.st.heap[lst.id] = HList(o.items, o.pre, o.kind, False, o.ghost)
        I.st.ghost["planned list"] = lst
        return lst


def begin_end(I, nb, ne, vc, ve, md):
    """Speeds at the ends of a planned move; vc, ve: previous and requested speed, capped at the feedrate."""
    two = mul(I, mul(I, Num(2, INT), md.acc), md.D)
    up, dn = I.binop_num("+", sq(I, nb), two), I.binop_num("+", sq(I, ve), two)
    return [
        (z_and([cmp(I, nb, ">=", ZERO), cmp(I, nb, "<=", vc)]), "begin speed is at most the previous speed and the feedrate"),
        (z_and([cmp(I, sq(I, nb), "<=", dn), z_or([eqn(I, nb, vc), eqn(I, sq(I, nb), dn)])]), "begin speed is the previous one unless braking is too long"),
        (z_and([cmp(I, ne, ">=", ZERO), cmp(I, ne, "<=", ve)]), "end speed is at most the requested one"),
        (z_and([cmp(I, sq(I, ne), "<=", up), z_or([eqn(I, ne, ve), eqn(I, sq(I, ne), up)])]), "end speed is the requested one if it can be reached"),
    ]


def single_rule(I, nb, vc, ve, md):
    """A block of one phase either cannot exceed the requested speed or must brake all the way."""
    two = mul(I, mul(I, Num(2, INT), md.acc), md.D)
    return z_or([cmp(I, sq(I, ve), ">=", I.binop_num("+", sq(I, vc), two)), cmp(I, sq(I, vc), ">=", I.binop_num("+", sq(I, ve), two))])


def unreadable(I):
    raise Unsupported("a phase in the middle of an abstract block")


class Timeshift:
    """timeshift of an abstract block (verified by u_timeshift): all its phases move by delta_t, nothing else changes."""

    target = "pyGCodeDecode.planner_block.planner_block.timeshift"

    def apply(self, I, v):
        blk, d = I.force(v["self"]), num(I, v["delta_t"])
        e = Ends(I, blk)
        s = I.force(I.getattr(blk, "segments"))
        a, b = I.force(I.getitem(s, Num(0, INT))), I.force(I.getitem(s, Num(-1, INT)))
        if not isinstance(I.get(s).pre.tag if I.get(s).pre is not None else None, PhasesTag) or I.get(s).items:
            raise Unsupported("time shift of another kind of block")
        for r, nm, t, lost in ((a, "t_begin", e.tb, "t_end"), (b, "t_end", e.te, "t_begin")):
            o = I.get(r)
            f = dict(o.fields)
            f[nm] = I.binop_num("+", t, d)
            f[lost] = Lazy(unreadable)
            I.st.heap[r.id] = HInst(o.cls, f, True, o.tag)


def self_check_stub():
    """segment.self_check reads only; it may report a segment."""
    def f(I, v):
        if I.branch(I.bool_("reported")):
            I.raise_py("ValueError")
    return Stub("utils.segment.self_check", f)


class Epoch:
    def __init__(self, name, old=None):
        self.name, self.old = name, old
        self.B, self.E, self.tb, self.te = (ifun(name + x) for x in ("B", "E", "tb", "te"))
        self.T = z3.Function(name + "type", z3.IntSort(), z3.IntSort())
        self.rules = []           # fn(I, chain, z): facts about block z in this epoch


TYPES = ("single", "triangle", "trapezoid")


class BlockChain:
    def __init__(self, I):
        self.N = I.int_("N")
        I.assume(self.N.z() >= 1)
        self.P = [ifun("P" + c) for c in "xyze"]      # P(k): where block k begins, P(k+1): where it ends
        self.kind = z3.Function("stands", z3.IntSort(), z3.BoolSort())
        self.D, self.acc, self.F = ifun("len"), ifun("acc"), ifun("feed")
        I.st.ghost["chain"] = self
        I.st.ghost["epoch"] = Epoch("a")
        I.st.ghost["blks"] = ()

    def fn(self, f, k):
        return Num(Poly.atom(f(iz(k))), NPF)

    def pos(self, k):
        return [Num(Poly.atom(f(iz(k))), FLT) for f in self.P]

    def md(self, I, k, kind=None):
        return MD(kind, *(self.fn(f, k) for f in (self.D, self.acc, self.F)), self.pos(k), self.pos(I.norm(k + ONE)))

    # facts

    def W(self, I, ep, k):
        """Invariant of block k."""
        z = iz(k)
        B, E = self.fn(ep.B, k), self.fn(ep.E, k)
        return z_and([
            self.acc(z) > 0, self.F(z) > 0, self.D(z) > 0, ep.B(z) >= 0,
            z3.If(self.kind(z), ep.E(z) == 0, z3.And(ep.B(z) <= self.F(z), ep.E(z) >= 0, ep.E(z) <= self.F(z), reach_ok(I, E, B, self.md(I, k)))),
            z3.Implies(z == 0, z3.And(ep.B(z) == 0, ep.tb(z) == 0)),
        ])

    def link(self, ep, z):
        """Block z does not begin faster than the one before ends."""
        return z3.Implies(z >= 1, ep.B(z) <= ep.E(z - 1))

    def agree(self, ep, z):
        d = ep.E(z - 1) - ep.B(z)
        return z3.Implies(z >= 1, z3.And(d <= tolerance(), -d <= tolerance()))

    def together(self, ep, z):
        return z3.Implies(z >= 1, ep.te(z - 1) == ep.tb(z))

    def facts(self, I, ep, k):
        """What is known about block k and its predecessor in this epoch and the ones before."""
        while ep is not None:
            for q in (k, I.norm(k - ONE)):
                z = iz(q)
                inr = z3.And(z >= 0, z < self.N.z())
                I.assume(z3.Implies(inr, z_and([self.W(I, ep, q), self.link(ep, z)] + [r(z) for r in ep.rules])))
            ep = ep.old

    # objects

    def known(self, I):
        return I.st.ghost["blks"]

    def block(self, I, k):
        k = I.norm(k)
        for j, r in self.known(I):
            if I.norm(k - j).is_zero():
                return r
        for j, r in self.known(I):
            if not I.norm(k - j).is_const() and I.branch(compare(I.norm(k - j), "==", I.st.positive)):
                return r
        z = iz(k)
        S = cls(I, "state:state")
        ps = I.alloc(HInst(I.member("state:state").members["p_settings"], {}, True, "opaque-fields"))
        B = I.alloc(HInst(S, {"_state_p_settings": ps}, True, "opaque-fields"))
        A = I.alloc(HInst(S, {}, True, "opaque-fields"))
        I.st.ghost[("move", B.id)] = self.md(I, k, self.kind(z))
        r = I.alloc(HInst(cls(I, "planner_block:planner_block"), {
            "state_A": A, "state_B": B,
            "_prev_block": Phi([(z == 0, None), (z3.Not(z == 0), Lazy(lambda J: self.block(J, k - ONE)))]),
            "_next_block": Phi([(z + 1 == self.N.z(), None), (z3.Not(z + 1 == self.N.z()), Lazy(lambda J: self.block(J, k + ONE)))]),
        }, False, "opaque-fields"))
        I.st.ghost["blks"] = self.known(I) + ((k, r),)
        self.fill(I, k, r)
        return r

    def fill(self, I, k, r):
        """Give block k the fields of the current epoch."""
        ep = I.st.ghost["epoch"]
        self.facts(I, ep, k)
        z = iz(k)
        nm = f"{ep.name}[{k}]"

        def segs(J):
            return abstract_segments(J, nm, self.fn(ep.tb, k), self.fn(ep.te, k), vec(J, "position", self.pos(k)), vec(J, "position", self.pos(J.norm(k + ONE))),
                                     velocity_of(J, nm + "vb", self.fn(ep.B, k)), velocity_of(J, nm + "ve", self.fn(ep.E, k)))

        o = I.get(r)
        f = dict(o.fields)
        f["segments"] = segs(I)
        f["blocktype"] = Phi([(ep.T(z) == 0, "single"), (ep.T(z) == 1, "triangle"), (z3.And(ep.T(z) == 2, self.kind(z)), None), (z3.And(ep.T(z) != 0, ep.T(z) != 1, z3.Not(z3.And(ep.T(z) == 2, self.kind(z)))), "trapezoid")])
        I.st.heap[r.id] = HInst(o.cls, f, False, o.tag)
        I.st.ghost[("asmade", r.id)] = f

    def new_epoch(self, I, ep):
        I.st.ghost["epoch"] = ep
        for k, r in self.known(I):
            self.fill(I, k, r)

    def number(self, I, r):
        for k, q in self.known(I):
            if q == r:
                return k
        return None

    def untouched(self, I, r):
        """Block r is as the epoch describes it."""
        made = I.st.ghost[("asmade", r.id)]
        now = I.get(r).fields
        return set(now) == set(made) and all(now[x] is made[x] or I.same(now[x], made[x]) for x in ("segments", "blocktype"))

    def only_plan(self, I, r):
        """Only the phases and the type of the block may change."""
        made, now = I.st.ghost[("asmade", r.id)], I.get(r).fields
        return set(now) == set(made) and all(now[x] is made[x] for x in made if x not in ("segments", "blocktype"))


def tolerance():
    return z3.Q(1, 10**12)


def changed(I, before):
    """Objects which are not what they were (besides fields computed on first access)."""
    out = []
    for i, old in before.items():
        new = I.st.heap.get(i)
        if new is old or new == old:
            continue
        if isinstance(old, HInst) and isinstance(new, HInst) and set(old.fields) == set(new.fields) and all(
                isinstance(v, Lazy) or v is new.fields[k] or I.same(v, new.fields[k]) for k, v in old.fields.items()):
            continue
        out.append(i)
    return out


def forget_segments(I):
    """After a loop has changed blocks, phases which were read before it are not valid any more."""
    c = cls(I, "utils:segment")
    for i, o in list(I.st.heap.items()):
        if isinstance(o, HInst) and o.cls is c:
            I.st.heap[i] = HInst(c, {}, True, "opaque-fields")


def assign_var(I, fr, nm, v):
    o = I.get(fr)
    vs = dict(o.vars)
    vs[nm] = v
    I.st.heap[fr.id] = HFrame(vs, o.parent, o.qualname)


def same_block(ep, old, q, times=True):
    r = [ep.B(q) == old.B(q), ep.E(q) == old.E(q), ep.T(q) == old.T(q)]
    return z3.And(*r, ep.tb(q) == old.tb(q), ep.te(q) == old.te(q)) if times else z3.And(*r)


class Collected:
    """Tag of a list of blocks n, n-1, ..., n-len+1 (up=False) or of such a list reversed (m, m+1, ..., n)."""

    def __init__(self, first, up):
        self.first, self.up = first, up

    def index(self, I, i):
        return I.norm(self.first + i if self.up else self.first - i)

    def reversed(self, I, n):
        last = I.norm(self.first + n - ONE if self.up else self.first - n + ONE)
        return block_list(I, I.st.ghost["chain"], last, n, not self.up)


def block_list(I, ch, first, n, up):
    t = Collected(first, up)
    return SymSeq(n, lambda J, i: ch.block(J, t.index(J, i)), t)


def same_index(I, a, b):
    d = I.norm(a - b)
    return d.is_zero() or not d.is_const() and I.implied(compare(d, "==", I.st.positive))


def collected(I, ch, o):
    """(first, length) if the list holds blocks first, first-1, ..."""
    if not isinstance(o, HList) or o.kind != "list":
        return None
    first, n = None, Poly.const(0)
    if o.pre is not None:
        if not isinstance(o.pre.tag, Collected) or o.pre.tag.up:
            return None
        first, n = o.pre.tag.first, o.pre.n
    for x in o.items:
        x = I.force(x) if isinstance(x, (Phi, Lazy)) else x
        k = ch.number(I, x) if isinstance(x, Ref) else None
        if k is None:
            return None
        if first is None:
            first = k
        elif not same_index(I, first - n, k):
            return None
        n = I.norm(n + ONE)
    return None if first is None else (first, n)


def begin(I):
    """Remember the state in which the verified function is called."""
    I.st.ghost["start"] = I.st.copy()
    I.st.ghost["start"].ghost["began"] = tuple(I.ctx.trace)


def cut(I, key, ch, names):
    """The rest of the function is verified once, from every state which the invariant allows: forget the path to here.

    Only the first path which arrives goes on; it keeps nothing but the variables which hold what they held at the
    beginning.
    """
    reg = I.__dict__.setdefault("cuts", {})
    if not I.ctx.top:
        raise Unsupported("cut inside a joined statement")
    st0, cur = I.st.ghost["start"], I.st
    new = st0.copy()
    new.ghost["start"] = st0
    I.st = new
    stored = set()
    for m in cls(I, "planner_block:planner_block").members.values():
        for f in (getattr(m, "fget", m), getattr(m, "fset", None)):
            if hasattr(f, "node"):
                stored |= stored_names(f.node.body)
    kept = []
    live = set()
    for c in I.call_stack:
        f = getattr(c, "frame", None)
        f = f.id if f is not None else None
        while f is not None and f not in live:
            live.add(f)
            f = cur.heap[f].parent
    for i, o in cur.heap.items():
        if isinstance(o, HFrame) and i not in st0.heap and i in live:
            vs = {}
            for nm, v in o.vars.items():
                if nm not in stored and (not isinstance(v, Ref) or v.id in st0.heap):
                    vs[nm] = v
                    if not isinstance(v, (bool, z3.BoolRef)) or nm in stored:
                        kept.append((o.qualname, nm, v))
                    else:
                        vs[nm] = I.bool_(nm)
                elif isinstance(v, (bool, z3.BoolRef)):
                    vs[nm] = I.bool_(nm)
                else:
                    vs[nm] = Havoc(nm)
            new.heap[i] = HFrame(vs, o.parent, o.qualname)
    tr, where = tuple(I.ctx.trace), (st0.ghost["began"],) + tuple(I.call_stack)
    order = {x: k for k, x in enumerate(st0.heap)}
    kept = [(a, b, ("object", order[v.id]) if isinstance(v, Ref) else v) for a, b, v in kept]
    first = reg.setdefault(key, (tr, where, kept))
    if first[0] != tr:
        if first[1] != where or len(kept) != len(first[2]) or any(
                a[:2] != b[:2] or not I.same(a[2], b[2]) for a, b in zip(kept, first[2])):
            raise Unsupported("a loop which is reached in different ways")
        raise PathDead()


class WalkBack:
    """while loop which corrects the blocks backwards: m is the block corrected last, everything before it is untouched."""

    name = "speeds agree behind the block corrected last; it does not begin faster than the one before ends"

    def match(self, I, s, fr):
        return isinstance(s, ast.While) and not s.orelse and "chain" in I.st.ghost

    def run(self, I, s, fr):
        ch = I.st.ghost["chain"]
        names = stored_names(s.body)
        vs = I.get(fr).vars
        walker, flag, lists = None, None, []
        for nm, v in vs.items():
            v = I.force(v) if isinstance(v, (Phi, Lazy)) else v
            if nm in names:
                if isinstance(v, Ref) and ch.number(I, v) is not None:
                    if walker is not None:
                        raise Unsupported("correction loop with several blocks")
                    walker = nm, v
                elif isinstance(v, (bool, z3.BoolRef)):
                    if flag is not None:
                        raise Unsupported("correction loop with several flags")
                    flag = nm, v
            elif isinstance(v, Ref):
                c = collected(I, ch, I.get(v))
                if c is not None:
                    lists.append((nm, v, c))
        if walker is None or flag is None:
            raise Unsupported("correction loop of another kind")
        n = ch.number(I, walker[1])
        start = I.st.ghost["corrected"]          # the block on which self_correction was called
        if not same_index(I, n, start):
            raise Unsupported("correction loop which does not begin at the block itself")
        for nm, v, (first, ln) in lists:
            if not (same_index(I, first, n) and same_index(I, ln, ONE)):
                raise Unsupported("list in a correction loop")
        self.inv(I, ch, n, walker[1], zb(I.truth(flag[1])), "before the correction goes backwards: ")
        if I.branch(iz(n) + 1 < ch.N.z()):
            pair(I, Ends(I, walker[1]), Ends(I, ch.block(I, I.norm(n + ONE))), "before the correction goes backwards: ")
        cut(I, ("walk", s.lineno), ch, names)
        old = I.st.ghost["epoch"]
        # the generic state: blocks m .. n are corrected
        m = I.int_("m")
        I.assume(z3.And(m.z() >= 0, m.z() <= iz(n)))
        k = n if I.branch(m.z() == iz(n)) else m.t
        z = iz(k)
        ep = Epoch("b", old)
        c = I.bool_("c")

        def rule(q):
            return z3.And(
                z3.Implies(z3.Or(q < z, q > iz(n)), same_block(ep, old, q)),
                z3.Implies(z3.And(q > z, q <= iz(n) + 1), ch.agree(ep, q)),
                z3.Implies(q < z, ch.agree(ep, q)),
                z3.Implies(q <= z, ch.together(ep, q)),
                z3.Implies(z3.And(q == z, z >= 1), z3.Or(ch.agree(ep, q), z3.And(c, ep.T(q) == 0))),
                z3.Implies(z3.And(q == z, c, ep.T(q) == 0), z >= 1),
            )

        ep.rules = [rule]
        ch.facts(I, ep, k)
        ch.facts(I, ep, n)
        ch.facts(I, ep, I.norm(n + ONE))
        ch.new_epoch(I, ep)
        blk = ch.block(I, k)
        assign_var(I, fr, walker[0], blk)
        assign_var(I, fr, flag[0], c)
        ls = []
        for nm, _, _ in lists:
            r = I.alloc(HList((), block_list(I, ch, n, I.norm(n - k + ONE), False), "list"))
            assign_var(I, fr, nm, r)
            ls.append((nm, r))
        before = dict(I.st.heap)
        if not I.test(I.eval(s.test, fr)):
            I.st.ghost["walked"] = k
            return
        try:
            I.exec_block(s.body, fr)
        except ContinueEx:
            pass
        except (BreakEx, ReturnEx):
            raise Unsupported("correction loop which is left in the middle") from None
        w = I.force(I.get(fr).vars[walker[0]])
        p = ch.number(I, w) if isinstance(w, Ref) else None
        if p is None:
            raise Unsupported("correction loop")
        I.oblige(iz(p) == z - 1, "the correction goes back block by block")
        ok = {fr.id, w.id}
        for nm, r in ls:
            cl = collected(I, ch, I.get(r))
            if cl is None:
                raise Unsupported("list in a correction loop")
            if not (same_index(I, cl[0], n) and same_index(I, cl[1], n - k + ONE + ONE)):
                raise Unsupported("list in a correction loop")
            ok.add(r.id)
        for i in changed(I, before):
            if i not in ok:
                raise Unsupported("the correction changes something else")
        if not ch.only_plan(I, w):
            raise Unsupported("the correction changes something else of a block")
        f = I.force(I.get(fr).vars[flag[0]])
        # the pair behind, then the invariant for the new block
        we, be = Ends(I, w), Ends(I, blk)
        pair(I, we, be, "loop invariant: ")
        self.inv(I, ch, p, w, zb(I.truth(f)), "loop invariant: ")
        raise PathDead()

    def inv(self, I, ch, k, blk, c, what):
        """Block k has been corrected (or needed no correction: not c)."""
        e = Ends(I, blk)
        check_block(I, ch, k, e, what)
        single = zb(I.truth(I.eq(I.getattr(blk, "blocktype"), "single")))
        if I.branch(iz(k) >= 1):
            p = Ends(I, ch.block(I, I.norm(k - ONE)))
            I.oblige(z_or([z_and([c, single]), speeds_agree(I, p, e)]), what + "the correction stops only where the speeds agree")
            I.oblige(eqn(I, e.tb, p.te), what + "the block begins when the previous one ends")
        else:
            I.oblige(z_not(z_and([c, single])), what + "the first block is never corrected backwards")


def speeds_agree(I, a, b):
    d, t = sub(I, a.E, b.B), const(Fraction(1, 10**12))
    return z_and([cmp(I, d, "<=", t), cmp(I, sub(I, ZERO, d), "<=", t)])


def pair(I, a, b, what):
    I.oblige(speeds_agree(I, a, b), what + "the block ends at the speed at which the next one begins")
    I.oblige(cmp(I, b.B, "<=", a.E), what + "the next block does not begin faster")


def check_block(I, ch, k, e, what, prev=True):
    """The invariant of block k, for its ends e."""
    md = I.st.ghost[("move", I.force(I.getattr(ch.block(I, k), "state_B")).id)]
    moves = lambda g: z_or([md.kind, g])
    I.oblige(z3.Implies(md.kind, eqn(I, e.E, ZERO)), what + "the block ends at rest")
    I.oblige(moves(z_and([cmp(I, e.B, "<=", md.F), cmp(I, e.E, "<=", md.F)])), what + "speeds are at most the feedrate")
    I.oblige(moves(reach_ok(I, e.E, e.B, md)), what + "the end speed can be reached")
    for x, y in zip(e.p0, md.pa):
        I.oblige(eqn(I, x, y), what + "the block begins where the previous one ends")
    for x, y in zip(e.p1, md.pb):
        I.oblige(eqn(I, x, y), what + "the block ends at its position")
    if I.branch(iz(k) >= 1):
        p = Ends(I, ch.block(I, I.norm(k - ONE)))
        I.oblige(cmp(I, e.B, "<=", p.E), what + "the block does not begin faster than the previous one ends")
    else:
        I.oblige(z_and([eqn(I, e.B, ZERO), eqn(I, e.tb, ZERO)]), what + "the first block begins at time zero, at rest")


class Align(LoopSpec):
    """for loop over the corrected blocks m .. n: the blocks handled so far are followed in time by the next one."""

    name = "the blocks aligned so far are followed by the next one in time"

    def match(self, I, L):
        return "chain" in I.st.ghost and self.view(L) is not None

    def view(self, L):
        t = L.seq.tag
        return t if isinstance(t, Collected) and t.up else None

    def enter(self, I, L):
        ch, n = I.st.ghost["chain"], I.st.ghost["corrected"]
        for k, r in ch.known(I):
            if not ch.untouched(I, r):
                raise Unsupported("time alignment behind a change of the blocks")
        m = self.view(L).first
        if not same_index(I, m + L.seq.n - ONE, n):
            raise Unsupported("time alignment of other blocks")
        a, b = I.st.ghost["start"].ghost["epoch"], I.st.ghost["epoch"]
        I.oblige(z3.And(iz(m) >= 0, iz(m) <= iz(n)), "before the alignment: blocks of the list are aligned")

        def rule(ep, a, m):
            return lambda q: z3.And(
                z3.Implies(q > iz(n), same_block(ep, a, q)), z3.Implies(q <= iz(n) + 1, ch.agree(ep, q)), z3.Implies(q <= iz(m), ch.together(ep, q)))

        q = I.int_("q")
        I.assume(z3.And(q.z() >= 0, q.z() < ch.N.z()))
        ch.facts(I, b, q.t)
        I.oblige(rule(b, a, m)(q.z()), "before the alignment: speeds agree, and the blocks before are together in time")
        cut(I, ("align", L.stmt.lineno), ch, ())
        a = I.st.ghost["epoch"]
        m = I.int_("m")
        I.assume(z3.And(m.z() >= 0, m.z() <= iz(n)))
        b = Epoch("b", a)
        b.rules = [rule(b, a, m.t)]
        L.seq = block_list(I, ch, m.t, I.norm(n - m.t + ONE), True)
        L.n = L.seq.n
        L.data["old"] = b

    def epoch(self, I, L, k, name):
        ch, old, m = I.st.ghost["chain"], L.data["old"], self.view(L).first
        ep = Epoch(name, old)

        def rule(q):
            return z3.And(same_block(ep, old, q, False), z3.Implies(z3.Not(z3.And(q > iz(m), q <= iz(m) + iz(k))), same_block(ep, old, q)), z3.Implies(q <= iz(m) + iz(k), ch.together(ep, q)))

        ep.rules = [rule]
        ch.new_epoch(I, ep)
        return ep

    def havoc(self, I, L, k):
        ch = I.st.ghost["chain"]
        self.epoch(I, L, k, "c" if L.k is not None else "d")
        L.data["before"] = dict(I.st.heap)
        for i, o in I.st.heap.items():
            L.touched.add(i)       # own frame condition

    def check(self, I, L, k):
        ch, m = I.st.ghost["chain"], self.view(L).first
        q = I.norm(m + k - ONE)
        blk = ch.block(I, q)
        ok = {L.frame.id}
        for j, r in ch.known(I):
            if not ch.only_plan(I, r) or not ch.untouched(I, r):
                raise Unsupported("the alignment changes something else of a block")
        if I.branch(z3.simplify(iz(I.norm(q + ONE)) < ch.N.z())):
            nx = ch.block(I, I.norm(q + ONE))
            a, b = Ends(I, blk), Ends(I, nx)
            I.oblige(eqn(I, a.te, b.tb), "the next block begins when the aligned one ends")
            s = I.force(I.getattr(nx, "segments"))
            for x in (0, -1):
                ok.add(I.force(I.getitem(s, Num(x, INT))).id)
        for i in changed(I, L.data["before"]):
            if i not in ok:
                raise Unsupported("the alignment changes something else")
