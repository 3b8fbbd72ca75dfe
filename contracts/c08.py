"""C08: position and velocity queries (segment.get_velocity / get_position, find_current_segment, get_values)."""

from .traj import *  # noqa: F401,F403
from .traj import *
from pyvc.unit import Unit


def one_segment(I, ty=ANYNUM):
    c = {k: [real(I, f"{k}_{x}", ty) for x in "xyze"] for k in ("pb", "pe", "vb", "ve")}
    tb, te, t = real(I, "tb", ty), real(I, "te", ty), real(I, "t", ty)
    I.assume(cmp(I, tb, "<=", te))
    s = I.alloc(HInst(cls(I, "utils:segment"), {
        "t_begin": tb, "t_end": te, "pos_begin": vec(I, "position", c["pb"]), "pos_end": vec(I, "position", c["pe"]),
        "vel_begin": vec(I, "velocity", c["vb"]), "vel_end": vec(I, "velocity", c["ve"])}))
    return s, tb, te, t, c


def check_interp(I, got, kind, tb, te, t, c, factor=None, what=""):
    """got: four numbers; exact interpolation between tb and te (times factor)."""
    T, x = sub(I, te, tb), sub(I, t, tb)
    f = (lambda v: v) if factor is None else (lambda v: mul(I, factor, v))
    for g, v0, v1, p0 in zip(got, c["vb"], c["ve"], c["pb"]):
        if kind == "velocity":
            lhs = mul(I, sub(I, g, f(v0)), T)
            rhs = f(mul(I, sub(I, v1, v0), x))
            zero = f(v0)
        else:      # 2 T (p - p0) = 2 v0 x T + (v1 - v0) x^2
            two = Num(2, INT)
            lhs = mul(I, mul(I, two, T), sub(I, g, f(p0)))
            rhs = f(I.binop_num("+", mul(I, mul(I, two, v0), mul(I, x, T)), mul(I, sub(I, v1, v0), sq(I, x))))
            zero = f(p0)
        I.oblige(z3.Implies(cmp(I, T, ">", ZERO), eqn(I, lhs, rhs)), f"{what}{kind} is the exact interpolation")
        I.oblige(z3.Implies(eqn(I, T, ZERO), eqn(I, g, zero)), f"{what}{kind} of an instantaneous segment")


def u_query(name):
    def fn(I):
        s, tb, te, t, c = one_segment(I)
        before = I.get(s)
        I.assume(cmp(I, tb, "<=", t))
        I.assume(cmp(I, t, "<=", te))
        r = call(I, s, "get_" + name, t=t)
        check_interp(I, comps(I, r), name, tb, te, t, c)
        I.oblige(TRUE if I.get(s) is before else same_obj_fields(I, s, before.fields), "the segment is not changed")
    return fn


def u_refuse(name):
    def fn(I):
        s, tb, te, t, c = one_segment(I)
        I.assume(z_or([cmp(I, t, "<", tb), cmp(I, t, ">", te)]))
        e, _ = raised(I, lambda: call(I, s, "get_" + name, t=t))
        I.oblige(TRUE if e is not None else FALSE, "a segment refuses to answer outside its time span")
    return fn


def u_find(prev, keep=False):
    def fn(I):
        tr = Traj(I)
        t = real(I, "t", ANYNUM)
        I.st.ghost["t"], I.st.ghost["tr"] = t, tr
        last = I.norm(tr.n.t - Poly.const(1))
        tr.see(I, Poly.const(0))
        tr.see(I, last)
        I.assume(cmp(I, t, ">=", ZERO))
        I.assume(cmp(I, t, "<=", tr.fun(tr.te, last)))
        li = None
        if prev:
            li = I.int_("last_index")
            I.assume(li.z() >= 0)
            tr.see(I, li.t)
        f = cls(I, "gcode_interpreter:find_current_segment")
        r = I.force(I.call(f, [], {"path": tr.path(I), "t": t, "last_index": li, **({"keep_position": True} if keep else {})}))
        it = I.iterate(r)
        I.oblige(TRUE if isinstance(it, list) and len(it) == 2 else FALSE, "a segment and its index are returned")
        s, i = I.force(it[0]), I.num(I.force(it[1]))
        ok = isinstance(s, Ref) and i is not None and isinstance(I.get(s), HInst) and isinstance(I.get(s).tag, tuple) and I.get(s).tag[0] == "seg"
        I.oblige(TRUE if ok else FALSE, "the found object is a segment of the trajectory")
        if not ok:
            return
        j = I.get(s).tag[1]
        I.oblige(eqn(I, i, Num(j, INT)), "the returned index is the one of the segment")
        I.oblige(z_and([cmp(I, tr.fun(tr.tb, j), "<=", t), cmp(I, t, "<=", tr.fun(tr.te, j))]), "the segment contains the time")
        p = I.norm(j - Poly.const(1))
        tr.see(I, p)
        I.oblige(z3.Implies(compare(j, ">", I.st.positive), cmp(I, tr.fun(tr.te, p), "<", t)) if not j.is_const() else (
            TRUE if j.is_zero() else cmp(I, tr.fun(tr.te, p), "<", t)), "no earlier segment contains the time")
    return fn


T_GHOST = lambda I: I.st.ghost["t"]  # noqa: E731


class UnpackLoop(LoopSpec):
    """After k blocks the result holds the first off(k) segments."""

    name = "the result holds the segments of the blocks passed so far"

    def match(self, I, L):
        return isinstance(base_tag(L.seq.tag), BlocksTag)

    def target(self, I, L):
        new = [(nm, v) for nm, v in I.get(L.frame).vars.items() if isinstance(v, Ref) and isinstance(I.get(v), HList) and not I.get(v).frozen]
        if len(new) != 1:
            raise Unsupported("loop invariant: one list collects the segments")
        return new[0][1]

    def enter(self, I, L):
        L.data["list"] = r = self.target(I, L)
        I.oblige(cmp(I, I.seq_len(r), "==", ZERO), "loop invariant: no segment before the first block")
        L.touch(r)

    def havoc(self, I, L, k):
        bt = base_tag(L.seq.tag)
        bt.see(I, k)
        I.st.heap[L.data["list"].id] = HList((), SymSeq(bt.off(I, k), lambda J, i: bt.tr.seg(J, i), None), "list")

    def check(self, I, L, k):
        bt = base_tag(L.seq.tag)
        check_flat(I, L.data["list"], bt, k, "loop invariant: ")


def check_flat(I, lst, bt, k, what):
    n = I.seq_len(lst)
    I.oblige(eqn(I, n, Num(bt.off(I, k), INT)), what + "number of segments")
    j = I.int_("j")
    I.assume(j.z() >= 0)
    I.assume(j.z() < n.z())
    s = I.force(I.getitem(lst, j))
    ok = isinstance(s, Ref) and isinstance(I.get(s), HInst) and isinstance(I.get(s).tag, tuple)
    I.oblige(TRUE if ok else FALSE, what + "the elements are segments")
    I.oblige(eqn(I, Num(I.get(s).tag[1], INT), j), what + "segments in order")


class BlocksTag:
    """A block list whose block k holds the segments off(k) .. off(k+1)-1 of the trajectory."""

    def __init__(self, I, tr):
        self.tr = tr
        self.nb = I.int_("nblocks")
        I.assume(self.nb.z() >= 0)
        self.offf = z3.Function("off", z3.IntSort(), z3.IntSort())

    def off(self, I, k):
        k = I.norm(k)
        if k.is_zero():
            return Poly.const(0)
        return Poly.atom(self.offf(iz(k)))

    def see(self, I, k):
        z = iz(k)
        I.assume(self.offf(z) >= 0)
        if I.norm(k).is_zero():
            I.assume(self.offf(z) == 0)

    def block(self, I, k):
        k = I.norm(k)
        self.see(I, k)
        self.see(I, I.norm(k + Poly.const(1)))
        a, b = self.off(I, k), self.off(I, k + Poly.const(1))
        m = I.norm(b - a)
        I.assume(compare(m, ">=", I.st.positive))
        lst = I.alloc(HList((), SymSeq(m, lambda J, i: self.tr.seg(J, J.norm(a + i)), None), "list", True))
        return I.alloc(HInst(cls(I, "planner_block:planner_block"), {"segments": lst}, True, "opaque-fields"))

    def seq(self):
        return SymSeq(self.nb.t, lambda J, k: self.block(J, k), self)


def u_unpack():
    def fn(I):
        tr = Traj(I)
        bt = BlocksTag(I, tr)
        r = I.force(I.call(cls(I, "gcode_interpreter:unpack_blocklist"), [], {"blocklist": I.alloc(HList((), bt.seq(), "list", True))}))
        check_flat(I, r, bt, bt.nb.t, "")
    return fn


def sim_query(I, unit, ask, prev=True):
    tr = Traj(I)
    I.st.ghost["tr"] = tr
    li = None
    if prev:
        li = I.int_("last_index")
        I.assume(li.z() >= 0)
    sim = planned(I, tr, unit, last_index=li)
    t = real(I, "t", ANYNUM)
    I.assume(cmp(I, t, ">=", ZERO))
    last = I.norm(tr.n.t - Poly.const(1))
    tr.see(I, last)
    I.assume(cmp(I, t, "<=", tr.fun(tr.te, last)))
    return tr, sim, t


def u_values(prev):
    def fn(I):
        tr, sim, t = sim_query(I, "SImm", None, prev)
        before = dict(I.get(sim).fields)
        r = I.iterate(I.force(call(I, sim, "get_values", t=t)))
        I.oblige(TRUE if isinstance(r, list) and len(r) == 2 else FALSE, "velocity and position are returned")
        tr2, i = I.st.ghost["hit"]
        c = {k: [tr.fun(f, i.t) for f in fs] for k, fs in tr.f.items()}
        tb, te = tr.fun(tr.tb, i.t), tr.fun(tr.te, i.t)
        for kind, v in zip(("velocity", "position"), r):
            g = [num(I, x) for x in I.iterate(v)]
            I.oblige(TRUE if len(g) == 4 else FALSE, f"four {kind} components")
            check_interp(I, g, kind, tb, te, t, c)
        unchanged(I, sim, before)
        li = I.get(sim).fields["last_index"]
        n = I.num(I.force(li)) if li is not None else None
        I.oblige(TRUE if li is None else cmp(I, n, ">=", ZERO) if n is not None else FALSE, "the search hint stays an index or None")
    return fn


UNPACK = Unpack(lambda I: I.st.ghost["tr"])


def units():
    out = []
    for k in ("velocity", "position"):
        out.append(Unit(f"segment.get_{k} inside its span", u_query(k)))
        out.append(Unit(f"segment.get_{k} outside its span", u_refuse(k)))
    hit = [FirstHit(T_GHOST)]
    out.append(Unit("find_current_segment, first query", u_find(False), loops=hit))
    out.append(Unit("find_current_segment, after other queries", u_find(True), loops=hit))
    out.append(Unit("find_current_segment, keeping positions, first query", u_find(False, True), loops=hit))
    out.append(Unit("find_current_segment, keeping positions, after other queries", u_find(True, True), loops=hit))
    out.append(Unit("unpack_blocklist", u_unpack(), loops=[UnpackLoop()]))
    for prev in (False, True):
        out.append(Unit(f"simulation.get_values, {'after other queries' if prev else 'first query'}", u_values(prev), contracts=[FindSegment(), UNPACK]))
    return out
