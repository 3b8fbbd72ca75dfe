"""C11: layer metrics."""

from .blocks import *  # noqa: F401,F403
from .blocks import *
from pyvc.unit import Unit

ONE = Poly.const(1)


def zint(name):
    return z3.Function(name, z3.IntSort(), z3.IntSort())


def ite(c, a, b):
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.ty == INT and b.ty == INT:
        return Num(Poly.atom(z3.If(c, a.z(), b.z())), INT)
    return Num(Poly.atom(z3.If(c, a.zr(), b.zr())), a.ty | b.ty)


class Ghost:
    """Groups of blocks: a new group begins at block k iff its layer exceeds the layer of the current group.

    c(k): groups finished before block k;  F(m), LAY(m), ST(m): first block, layer and start time of group m;
    S(k): travel of the blocks before k.
    """

    def __init__(self):
        self.c, self.F, self.LAY = zint("c"), zint("F"), zint("LAY")
        self.ST, self.S = ifun("ST"), ifun("S")
        self.lay = zint("lay")
        self.tb, self.te, self.d = ifun("tb"), ifun("te"), ifun("travel")

    def base(self):
        return z3.And(self.c(0) == 0, self.F(0) == 0, self.LAY(0) == 0, self.ST(0) == 0, self.S(0) == 0)

    def step(self, k):
        """Definition of the recursion at block k."""
        c = self.c(k)
        new = self.lay(k) > self.LAY(c)
        return z3.And(
            self.c(k + 1) == z3.If(new, c + 1, c),
            z3.Implies(new, z3.And(self.F(c + 1) == k, self.LAY(c + 1) == self.lay(k), self.ST(c + 1) == self.tb(k))),
            self.S(k + 1) == self.S(k) + self.d(k))


class LayerBlocks(BlocksBase):
    def __init__(self, I):
        super().__init__(I)
        self.g = Ghost()
        I.assume(self.g.base())
        self.m = zint("phases")

    def facts(self, I, k, z):
        g = self.g
        I.assume(g.step(z))
        I.assume(g.lay(z) >= 0)
        I.assume(self.m(z) >= 1)
        d = I.sqrt(I.norm(ssum(I, [sq(I, sub(I, Num(Poly.atom(b(z)), FLT), Num(Poly.atom(a(z)), FLT))) for a, b in zip(self.a[:3], self.b[:3])]).t), "norm")
        I.assume(compare(I.norm(d - Poly.atom(g.d(z))), "==", I.st.positive))

    def fields(self, I, k, z):
        g = self.g

        def seg(J, i):
            i = J.norm(i)
            s = cls(J, "utils:segment")
            f = {}
            if i.is_zero():
                f["t_begin"] = Num(Poly.atom(g.tb(z)), FLT)
            if J.norm(i + ONE - Poly.atom(self.m(z))).is_zero():
                f["t_end"] = Num(Poly.atom(g.te(z)), FLT)
            return J.alloc(HInst(s, f, True, "opaque-fields"))

        d = super().fields(I, k, z)
        B = d["state_B"]
        o = I.get(B)
        I.setattr(B, "layer", Num(Poly.atom(g.lay(z)), INT))
        o = I.get(B)
        I.st.heap[B.id] = HInst(o.cls, o.fields, True, o.tag)
        d["segments"] = I.alloc(HList((), SymSeq(Poly.atom(self.m(z)), seg, None), "list", True))
        last = z == self.n.z() - 1
        d["next_block"] = Phi([(last, None), (z3.Not(last), I.alloc(HInst(cls(I, "planner_block:planner_block"), {}, True, "opaque-fields")))])
        return d


def record(I, bt, k, j):
    """Record j after k blocks: layer, duration, travel."""
    g, kz, jz = bt.g, iz(k), iz(j)
    closed = jz < g.c(kz)
    I.assume(z3.BoolVal(True))
    end = ite(closed, Num(Poly.atom(g.ST(jz + 1)), FLT), Num(Poly.atom(g.te(kz - 1)), FLT))
    dist = ite(closed, Num(Poly.atom(g.S(g.F(jz + 1))), FLT), Num(Poly.atom(g.S(kz)), FLT))
    D = sub(I, end, Num(Poly.atom(g.ST(jz)), FLT))
    T = sub(I, dist, Num(Poly.atom(g.S(g.F(jz))), FLT))
    return Num(Poly.atom(g.LAY(jz)), INT), D, T


def length(I, bt, k, inside=True):
    """Number of records after k blocks."""
    c = bt.g.c(iz(k))
    if not inside:
        return Num(Poly.atom(c), INT)
    return Num(Poly.atom(z3.If(z3.And(iz(k) == bt.n.z(), iz(k) > 0), c + 1, c)), INT)


NAMES = ("layers", "durations", "travel_distances", "avg_speeds")


def check_record(I, bt, k, j, vals, what):
    lay, D, T = record(I, bt, k, j)
    I.oblige(eqn(I, num(I, vals[0]), lay), what + "layer of a record")
    I.oblige(eqn(I, num(I, vals[1]), D), what + "duration of a layer")
    I.oblige(eqn(I, num(I, vals[2]), T), what + "travel distance of a layer")
    if I.branch(z_not(eqn(I, D, ZERO))):
        v = I.force(vals[3])
        if I.num(v) is None:
            I.oblige(FALSE, what + "average speed is a number")
        else:
            I.oblige(eqn(I, mul(I, I.num(v), D), T), what + "average speed is distance over duration")


class LayerLoop(LoopSpec):
    name = "the records hold the layers finished so far; current layer, its start time and its travel so far"

    def __init__(self, inside=True):
        self.inside = inside      # is the last layer recorded within the loop?

    def match(self, I, L):
        return isinstance(base_tag(L.seq.tag), LayerBlocks) and offset(L.seq.tag).is_zero() and all(
            L.has(I, nm) for nm in NAMES + ("current_layer", "last_layer_time", "travel"))

    def values(self, bt, k):
        g, z = bt.g, iz(k)
        return {
            "current_layer": Num(Poly.atom(g.LAY(g.c(z))), INT), "last_layer_time": Num(Poly.atom(g.ST(g.c(z))), FLT),
            "travel": Num(Poly.atom(g.S(z)) - Poly.atom(g.S(g.F(g.c(z)))), FLT)}

    def enter(self, I, L):
        bt = base_tag(L.seq.tag)
        for nm, v in self.values(bt, Poly.const(0)).items():
            I.oblige(eqn(I, num(I, L.var(I, nm)), v), f"loop invariant before the first block: {nm}")
        L.data["lists"] = [I.force(L.var(I, nm)) for nm in NAMES]
        for r in L.data["lists"]:
            I.oblige(eqn(I, I.seq_len(r), ZERO), "loop invariant before the first block: no records")
            L.touch(r)

    def havoc(self, I, L, k):
        bt = base_tag(L.seq.tag)
        g = bt.g
        I.assume(g.c(iz(k)) >= 0)
        for nm, v in self.values(bt, k).items():
            L.set(I, nm, v)
        n = length(I, bt, k, self.inside)
        avg = ifun("average")

        def get(col):
            def f(J, j):
                lay, D, T = record(J, bt, k, j)
                if col < 3:
                    return (lay, D, T)[col]
                a = Num(Poly.atom(avg(iz(j))), FLT)
                nz = z_not(eqn(J, D, ZERO))
                J.assume(z3.Implies(nz, eqn(J, mul(J, a, D), T)))
                return Phi([(nz, a), (z_not(nz), "NaN")])
            return f

        for i, r in enumerate(L.data["lists"]):
            I.st.heap[r.id] = HList((), SymSeq(n.t, get(i), None), "list")

    def check(self, I, L, k):
        bt = base_tag(L.seq.tag)
        g = bt.g
        I.oblige(g.c(iz(k)) >= 0, "loop invariant: number of finished layers")
        for nm, v in self.values(bt, k).items():
            I.oblige(eqn(I, num(I, L.var(I, nm)), v), f"loop invariant: {nm}")
        n = length(I, bt, k, self.inside)
        for r in L.data["lists"]:
            I.oblige(eqn(I, I.seq_len(r), n), "loop invariant: number of records")
        j = I.int_("j")
        I.assume(j.z() >= 0)
        I.assume(j.z() < n.z())
        check_record(I, bt, k, j.t, [I.getitem(r, j) for r in L.data["lists"]], "loop invariant: ")


def sim(I, bt, cue=True):
    d = {"printer_name": "printer", "firmware": None}
    if cue:
        d["layer_cue"] = I.str_("cue")
    return simulation(I, "SImm", setup=I.new_dict(d), blocklist=bt.list(I))


def run(I, csv, cue=True):
    bt = LayerBlocks(I)
    f = cls(I, "tools:save_layer_metrics")
    path = I.str_("path") if csv else None
    r = I.force(I.call(f, [], {"simulation": sim(I, bt, cue), "filepath": path}))
    return bt, r, path


def check_result(I, bt, r):
    it = I.iterate(r)
    ok = isinstance(it, list) and len(it) == 4
    I.oblige(TRUE if ok else FALSE, "layers, durations, distances and average speeds are returned")
    if not ok:
        return None
    lists = [I.force(x) for x in it]
    n = length(I, bt, bt.n.t)
    for x in lists:
        I.oblige(eqn(I, I.seq_len(x), n), "one record per layer")
    j = I.int_("j")
    I.assume(j.z() >= 0)
    I.assume(j.z() < n.z())
    bt.block(I, bt.n.t - ONE)
    check_record(I, bt, bt.n.t, j.t, [I.getitem(x, j) for x in lists], "")
    return lists


def u_metrics(I):
    bt, r, _ = run(I, False)
    check_result(I, bt, r)


def u_csv(I):
    bt, r, path = run(I, True)
    lists = check_result(I, bt, r)
    calls = [c for c in I.st.ghost.get("library_calls", ()) if c[0] == "np.savetxt"]
    if lists is None or len(calls) != 1:
        raise Unsupported("the metrics are not written by one call of savetxt")
    _, a, kw = calls[0]
    names = ("fname", "X", "fmt", "delimiter")
    arg = {**dict(zip(names, a)), **kw}
    X = I.force(arg.get("X"))
    o = I.get(X) if isinstance(X, Ref) else None
    if not (isinstance(o, HInst) and "columns" in o.fields):
        raise Unsupported("table of the metrics")
    I.oblige(TRUE if I.same(arg.get("fname"), path) else FALSE, "the metrics are written to the requested file")
    I.oblige(TRUE if len(o.fields["columns"]) == 4 and all(x == I.get(l) for x, l in zip(o.fields["columns"], lists)) else FALSE, "the file has the returned columns")


def u_nocue(I):
    bt, r, _ = run(I, True, cue=False)
    I.oblige(TRUE if r is None else FALSE, "nothing is reported without a layer cue")
    I.oblige(TRUE if not I.st.ghost.get("library_calls") and not I.st.ghost.get("writes") else FALSE, "nothing is written without a layer cue")


# ---------------------------------------------------------------- the groups are the layers


def u_increasing(I):
    """Group m >= 1 begins with a block of a higher layer than the group before, at that block's beginning."""
    g, k, m = Ghost(), I.int_("k").z(), I.int_("m").z()

    def inv(k):
        f = g.F(m)
        return z3.Implies(z3.And(1 <= m, m <= g.c(k)), z3.And(
            0 <= f, f < k, g.c(f) == m - 1, g.c(f + 1) == m, g.lay(f) == g.LAY(m), g.LAY(m) > g.LAY(m - 1), g.tb(f) == g.ST(m)))

    I.assume(g.base())
    I.oblige(inv(z3.IntVal(0)), "layers are increasing: before the first block")
    I.assume(k >= 0)
    I.assume(z3.And(g.c(k) >= 0, inv(k), g.step(k)))
    I.oblige(inv(k + 1), "layers are increasing: one more block")


def u_members(I):
    """Block j belongs to the group with its own layer; groups are contiguous."""
    g, j, i = Ghost(), I.int_("j").z(), I.int_("i").z()
    I.assume(g.base())
    I.assume(z3.And(j >= 0, g.step(j)))

    def mine(j):      # for j >= 0; before the first block the group of layer 0
        return z3.If(j < 0, z3.BoolVal(True), g.lay(j) == g.LAY(g.c(j + 1)))

    lay0 = z3.If(j > 0, g.lay(j - 1), z3.IntVal(0))
    I.assume(z3.Implies(j > 0, mine(j - 1)))
    I.assume(lay0 <= g.lay(j))      # layer numbers never decrease (C06)
    I.oblige(mine(j), "a block belongs to the record of its own layer")
    I.assume(z3.And(i <= j, g.c(i) <= g.c(j)))
    I.oblige(g.c(i) <= g.c(j + 1), "the blocks of a record follow one another")
    n = I.int_("n").z()
    I.assume(z3.And(n >= 0, g.step(n)))
    # a first block is the one after which the group number has just grown
    I.assume(z3.And(g.c(n + 1) == g.c(n) + 1))
    I.oblige(g.F(g.c(n + 1)) == n, "a record begins with the first block of its layer")


def u_sums(I):
    """Durations and distances add up to print time and total travel (induction over the records)."""
    g, m, n = Ghost(), I.int_("m").z(), I.int_("n").z()
    DD, TT = ifun("DD"), ifun("TT")
    I.assume(g.base())
    I.assume(z3.And(DD(0) == 0, TT(0) == 0))
    inv = lambda m: z3.And(DD(m) == g.ST(m), TT(m) == g.S(g.F(m)))  # noqa: E731
    I.oblige(inv(0), "sums of durations and distances: no layer")
    I.assume(z3.And(m >= 0, inv(m), DD(m + 1) == DD(m) + g.ST(m + 1) - g.ST(m), TT(m + 1) == TT(m) + g.S(g.F(m + 1)) - g.S(g.F(m))))
    I.oblige(inv(m + 1), "sums of durations and distances: one more layer")
    c = g.c(n)
    I.assume(z3.And(n > 0, inv(c)))
    I.oblige(z3.And(DD(c) + (g.te(n - 1) - g.ST(c)) == g.te(n - 1), TT(c) + (g.S(n) - g.S(g.F(c))) == g.S(n)), "durations add up to the print time, distances to the total travel")


def units():
    a, b = [LayerLoop(True)], [[LayerLoop(False)]]
    return [
        Unit("layer metrics", u_metrics, loops=a, alts=b),
        Unit("layer metrics file", u_csv, loops=a, alts=b),
        Unit("no layer cue", u_nocue, loops=a, alts=b),
        Unit("layers are increasing", u_increasing),
        Unit("records hold exactly the blocks of their layer", u_members),
        Unit("metrics add up", u_sums),
    ]
