"""C10: the Abaqus event series."""

from .traj import *  # noqa: F401,F403
from .traj import *
from pyvc.lib import RangeTag
from pyvc.loops import mut_seq
from pyvc.unit import Unit


def point(I, tr, i, c):
    """Coordinate c of the i-th point of the trajectory (0 = start, i = end of segment i-1)."""
    i = I.norm(i)
    if i.is_zero():
        tr.see(I, i)
        return tr.fun(tr.f["pb"][c], i)
    z = iz(i)
    j = I.norm(i - Poly.const(1))
    tr.see(I, j)
    if i.is_const():
        return tr.fun(tr.f["pe"][c], j)
    return Num(Poly.atom(z3.If(z == 0, tr.f["pb"][c](z3.IntVal(0)), tr.f["pe"][c](z - 1))), FLT)


def flag(I, tr, tol, i):
    """Extrusion flag of entry i < n: material is extruded on the way to the next entry."""
    d = sub(I, point(I, tr, I.norm(i + Poly.const(1)), 3), point(I, tr, i, 3))
    return cmp(I, d, ">", tol)


def ite(c, a, b):
    return Num(Poly.atom(z3.If(c, a.zr(), b.zr())), a.ty | b.ty)


ONE = Num(1, INT)


class FlagLoop(LoopSpec):
    """After k iterations the entries before k carry their flag in place of the extrusion coordinate."""

    name = "the entries passed so far carry their extrusion flag, the others their extrusion coordinate"

    def __init__(self, st):
        self.st = st

    def match(self, I, L):
        if not isinstance(L.seq.tag, RangeTag):
            return False
        tr = I.st.ghost["tr"]
        return I.norm(L.n - tr.n.t).is_zero() and self.find(I, L) is not None

    def find(self, I, L):
        """The list whose elements the loop writes."""
        import ast

        names = [t.value.value.id for s in L.stmt.body for t in ast.walk(s) if isinstance(t, ast.Subscript) and isinstance(t.ctx, ast.Store)
                 and isinstance(t.value, ast.Subscript) and isinstance(t.value.value, ast.Name)]
        for nm in names:
            v = I.force(L.var(I, nm)) if L.has(I, nm) else None
            if isinstance(v, Ref) and isinstance(I.get(v), HList):
                return v
        return None

    def item(self, I, L, k, i):
        """Heap object of entry i after k iterations."""
        tr, tol = I.st.ghost["tr"], I.st.ghost["tol"]
        p = [point(I, tr, i, c) for c in range(4)]
        d = I.norm(i - k)
        done = compare(d, "<", I.st.positive) if not d.is_const() else (TRUE if d.const_value() < 0 else FALSE)
        if not z3.is_false(done):
            f = ite(flag(I, tr, tol, i), ONE, ZERO)
            p[3] = f if z3.is_true(done) else ite(done, f, p[3])
        return HList(tuple(p), None, "list")

    def same(self, I, ref, want, what):
        got = I.iterate(ref)
        ok = isinstance(got, list) and len(got) == 4
        I.oblige(TRUE if ok else FALSE, what + "four values")
        for g, w, c in zip(got, want.items, ("x", "y", "z", "extrusion")):
            I.oblige(eqn(I, num(I, g), w), what + c)

    def enter(self, I, L):
        L.data["list"] = r = self.find(I, L)
        tr = I.st.ghost["tr"]
        n1 = I.norm(tr.n.t + Poly.const(1))
        I.oblige(eqn(I, I.seq_len(r), Num(n1, INT)), "loop invariant: one entry per point of the trajectory")
        j = I.int_("j")
        I.assume(j.z() >= 0)
        I.assume(j.z() <= tr.n.z())
        st = I.st
        # the entries hold the points: an arbitrary one
        outs = I.explore(lambda: self.same(I, I.getitem(r, j), self.item(I, L, Poly.const(0), j.t), "loop invariant before the first iteration: "))
        I.st = st
        if any(o.kind != "normal" for o in outs):
            raise Unsupported("reading of the entries")
        L.touch(r)

    def havoc(self, I, L, k):
        tr = I.st.ghost["tr"]
        seq, entries, store = mut_seq(I, I.norm(tr.n.t + Poly.const(1)), lambda J, i: self.item(J, L, k, i), PosTag(tr))
        I.st.heap[L.data["list"].id] = HList((), seq, "list")
        L.data["entries"] = entries
        L.touch(store)
        if L.k is not None and k is L.k:
            I.getitem(L.data["list"], Num(k, INT))
            for _, ref in entries(I):
                L.touch(ref)

    def check(self, I, L, k):
        o = I.get(L.data["list"])
        if not (isinstance(o, HList) and o.pre is not None and not o.items and isinstance(o.pre.tag, PosTag)):
            raise Unsupported("the loop replaces the list of entries")
        for i, ref in L.data["entries"](I):
            self.same(I, ref, self.item(I, L, k, i), "loop invariant after an iteration: ")


class PosTag:
    def __init__(self, tr):
        self.tr = tr


def run(I, own, asked, tol):
    tr = Traj(I)
    sim = planned(I, tr, own)
    I.st.ghost["tr"] = tr
    if tol:
        t = real(I, "tolerance", ANYNUM)
        kw = {"tolerance": t}
    else:
        t, kw = Num(Fraction(1, 10 ** 12), FLT), {}
    I.st.ghost["tol"] = t
    I.st.ghost["frozen_violation"] = "the trajectory is not changed"
    if asked is not None:
        kw["output_unit_system"] = asked
    I.st.ghost["path"] = path = I.str_("path")
    f = cls(I, "abaqus_file_generator:generate_abaqus_event_series")
    r = I.force(I.call(f, [], {"simulation": sim, "filepath": path, **kw}))
    I.st.ghost.pop("frozen_violation")
    return tr, t, r, Num(FACTORS[asked or own], FLT)


def some_entry(I, tr):
    j = I.int_("j")
    I.assume(j.z() >= 0)
    I.assume(j.z() <= tr.n.z())
    return j


def want(I, tr, tol, f, j):
    """Time, scaled position and flag of entry j."""
    z = iz(j.t)
    k = I.norm(j.t - Poly.const(1))
    tr.see(I, k)
    time = Num(Poly.atom(z3.If(z == 0, z3.RealVal(0), tr.te(z - 1))), FLT)
    pos = [mul(I, f, point(I, tr, j.t, c)) for c in range(3)]
    return time, pos, ite(z3.And(z < tr.n.z(), flag(I, tr, tol, j.t)), ONE, ZERO)


def u_series(own, asked, tol):
    def fn(I):
        tr, t, r, f = run(I, own, asked, tol)
        I.oblige(eqn(I, I.seq_len(r), Num(I.norm(tr.n.t + Poly.const(1)), INT)), "one entry for the start and one for the end of each segment")
        j = some_entry(I, tr)
        row = I.iterate(I.force(I.getitem(r, j)))
        I.oblige(TRUE if isinstance(row, list) and len(row) == 5 else FALSE, "an entry has five values")
        time, pos, fl = want(I, tr, t, f, j)
        I.oblige(eqn(I, num(I, row[0]), time), "exact time of an entry")
        for g, w, c in zip(row[1:4], pos, "xyz"):
            I.oblige(eqn(I, num(I, g), w), f"scaled position of an entry ({c})")
        I.oblige(eqn(I, num(I, row[4]), fl), "extrusion flag of an entry")
    return fn


def u_file(own, asked, tol):
    def fn(I):
        tr, t, r, f = run(I, own, asked, tol)
        ws = I.st.ghost.get("writes", ())
        if len(ws) != 1 or not isinstance(ws[0][1], SymSeq):
            raise Unsupported("the rows are not written one by one")
        s = ws[0][1]
        I.oblige(eqn(I, Num(s.n, INT), Num(I.norm(tr.n.t + Poly.const(1)), INT)), "one row per entry")
        j = some_entry(I, tr)
        path, text = s.get(I, j.t)
        I.oblige(TRUE if I.same(path, I.st.ghost["path"]) else FALSE, "the rows are written to the requested file")
        if not (isinstance(text, SStr) and isinstance(text.note, tuple) and text.note[0] == "parts"):
            raise Unsupported("row text")
        lit, vals = "", []
        for p in text.note[1]:
            if isinstance(p, str):
                lit += p
            else:
                if p[3] is not None or p[2] != -1:
                    raise Unsupported("formatted number")
                lit += "\0"
                vals.append(p[1])
        row = lit.replace(" ", "")
        toks = row[:-1].split(",")
        ok = row.endswith("\n") and len(toks) == 5 and all(t == "\0" or t.lstrip("-").isdigit() for t in toks)
        I.oblige(TRUE if ok else FALSE, "a row is five values separated by commas")
        it = iter(vals)
        vals = [next(it) if t == "\0" else Num(int(t), INT) for t in toks]
        time, pos, fl = want(I, tr, t, f, j)
        I.oblige(eqn(I, num(I, vals[0]), time), "exact time of a row")
        half = Num(Fraction(1, 2 * 10 ** 8), FLT)
        for g, w, c in zip(vals[1:4], pos, "xyz"):
            d = sub(I, num(I, g), w)
            I.oblige(z_and([cmp(I, d, "<=", half), cmp(I, I.binop_num("-", ZERO, d), "<=", half)]), f"rounded position of a row ({c})")
        I.oblige(eqn(I, num(I, vals[4]), fl), "extrusion flag of a row")
    return fn


def units(full=True):
    loops = [FlagLoop(None)]
    un = c08_unpack()
    out = [
        Unit("event series, any tolerance", u_series("SImm", None, True), contracts=[un], loops=loops),
        Unit("event series, default tolerance", u_series("SImm", None, False), contracts=[un], loops=loops),
        Unit("event series file", u_file("SImm", None, True), contracts=[un], loops=loops),
    ]
    for own, asked in (("SI", None), ("inch", None), ("SImm", "SI"), ("SImm", "inch"), ("inch", "SImm")):
        out.append(Unit(f"event series of a {own} simulation in {asked or 'its own system'}", u_series(own, asked, True), contracts=[un], loops=loops))
    out.append(Unit("event series file in inch", u_file("SImm", "inch", True), contracts=[un], loops=loops))
    return out


def c08_unpack():
    from . import c08

    return c08.UNPACK
