"""C13: times at which the path reaches a point."""

import itertools
from fractions import Fraction

from .move import *  # noqa: F401,F403
from .move import segment
from .common import *  # noqa: F401,F403
from .common import *
from .c12 import *  # noqa: F401,F403
from .c12 import *
from .chain import velocity_of
from .traj import raised
from pyvc.interp import CannotMerge, Slice
from pyvc.lib import T
from pyvc.unit import Unit
from pyvc.values import Builtin, ClassVal


def u_inverse(m, dwell, what):
    """inverse_time_at_pos of a block of m phases of motion, with or without a dwell behind them."""
    def fn(I):
        two = Num(2, INT)
        t = [real(I, f"t{k}") for k in range(m + 1)]
        pos = [[real(I, f"p{k}{c}") for c in "xyze"] for k in range(m + 1)]
        segs, V, Ls = [], [], []
        for k in range(m):
            T = sub(I, t[k + 1], t[k])
            I.assume(cmp(I, T, ">=", ZERO))
            nb, ne = real(I, f"nb{k}", NPF), real(I, f"ne{k}", NPF)
            I.assume(z_and([cmp(I, nb, ">=", ZERO), cmp(I, ne, ">=", ZERO)]))
            L = Num(I.sqrt(ssum(I, [sq(I, sub(I, y, x)) for x, y in zip(pos[k][:3], pos[k + 1][:3])]).t, f"len{k}"), NPF)
            I.assume(eqn(I, mul(I, two, L), mul(I, I.binop_num("+", nb, ne), T)))
            segs.append(segment(I, t[k], t[k + 1], vec(I, "position", pos[k]), vec(I, "position", pos[k + 1]), velocity_of(I, f"vb{k}", nb), velocity_of(I, f"ve{k}", ne)))
            V.append((nb, ne, T))
            Ls.append(L)
        if dwell:
            te = real(I, "tdwell")
            I.assume(cmp(I, te, ">=", t[m]))
            p = vec(I, "position", pos[m])
            segs.append(segment(I, t[m], te, p, p, *(vec(I, "velocity", [ZERO] * 4) for _ in range(2))))
        blk = block_of(I, segs)
        d = real(I, "dist")
        I.assume(cmp(I, d, ">=", ZERO))
        total = ssum(I, Ls)
        I.assume(cmp(I, total, ">", ZERO))
        before = dict(I.st.heap)
        if what == "beyond":
            I.assume(cmp(I, d, ">", total))
            e, r = raised(I, lambda: call(I, blk, "inverse_time_at_pos", d))
            I.oblige(TRUE if e is not None else FALSE, "a distance beyond the block is rejected")
            return
        I.assume(cmp(I, d, "<=", total))
        tau = num(I, call(I, blk, "inverse_time_at_pos", d))
        cum = ZERO
        for k in range(m):
            nxt = I.binop_num("+", cum, Ls[k])
            if I.branch(cmp(I, d, "<=", nxt)):
                nb, ne, T = V[k]
                s = sub(I, tau, t[k])
                I.oblige(z_and([cmp(I, s, ">=", ZERO), cmp(I, s, "<=", T)]), "the time lies in the phase which covers the distance")
                # T (2 (d - cum) - 2 nb s) == (ne - nb) s^2
                lhs = mul(I, T, mul(I, two, sub(I, sub(I, d, cum), mul(I, nb, s))))
                I.oblige(eqn(I, lhs, mul(I, sub(I, ne, nb), sq(I, s))), "the motion has covered exactly the distance at this time")
                I.oblige(z_or([cmp(I, T, ">", ZERO), eqn(I, d, cum)]), "a phase without duration covers no distance")
                return
            cum = nxt
        I.oblige(FALSE, "the distance lies in the block")
    return fn


def block_of(I, segs):
    return I.alloc(HInst(cls(I, "planner_block:planner_block"), {"segments": I.new_list(segs)}, False, "opaque-fields"))


# ---------------------------------------------------------------- submodel times


class Table:
    """Abstract numpy values made of the list of [time, entry?] rows: which column, in which order, which rows."""

    def __init__(self, spec):
        self.spec = spec


def arrval(I, tag, cls_):
    return I.alloc(HInst(cls_, {"t": tag}, True, "opaque-fields"))


def tag_of(I, ref):
    return I.get(ref).fields["t"]


def _like(I, v, *classes):
    return isinstance(v, Ref) and isinstance(I.get(v), HInst) and I.get(v).cls in classes


def rows_len(spec, keep):
    return spec.count[keep]


def b(name, fn):
    return Builtin("ndarray." + name, lambda I, a, k: fn(I, a, k))


def ncols(I, x):
    n = I.num(I.force(x))
    if n is None or n.const is None:
        raise Unsupported("column of the table")
    return int(n.const)


def full(x):
    return isinstance(x, Slice) and x.a is None and x.b is None and x.c is None


def table_item(I, a, k):
    t, key = tag_of(I, a[0]), a[1]
    spec, order, two, keep = t
    if isinstance(key, tuple) and len(key) == 2 and full(key[0]) and not isinstance(key[1], Slice):
        if not two and I.branch(spec.count[None].z() == 0):
            I.raise_py("IndexError", "too many indices for array")
        c = ncols(I, key[1])
        if c not in (0, 1, -1, -2):
            I.raise_py("IndexError", "column index")
        return arrval(I, (spec, order, c % 2, keep), COLUMN)
    if _like(I, key, PERM):
        s2, o2, by, k2 = tag_of(I, key)
        if s2 is not spec or o2 != order or k2 != keep:
            return arrval(I, (spec, "wrong permutation", two, keep), TABLE)
        return arrval(I, (spec, by, two, keep), TABLE)
    if _like(I, key, MASK):
        return arrval(I, (spec, order, two, picked(I, spec, order, keep, key)), TABLE)
    raise Unsupported("index of the table")


def picked(I, spec, order, keep, mask):
    s2, o2, neg, k2 = tag_of(I, mask)
    if s2 is not spec or k2 != keep or keep is not None:
        raise Unsupported("selection from a selection")
    if o2 != order:
        return "wrong rows"
    return "out" if neg else "in"


def column_item(I, a, k):
    (spec, order, c, keep), key = tag_of(I, a[0]), a[1]
    if _like(I, key, MASK):
        return arrval(I, (spec, order, c, picked(I, spec, order, keep, key)), COLUMN)
    if _like(I, key, PERM):
        s2, o2, by, k2 = tag_of(I, key)
        if s2 is not spec or o2 != order or k2 != keep:
            return arrval(I, (spec, "wrong permutation", c, keep), COLUMN)
        return arrval(I, (spec, by, c, keep), COLUMN)
    raise Unsupported("index of a column")


def argsort(I, a, k):
    spec, order, c, keep = tag_of(I, a[0])
    if len(a) > 1 or set(k) - {"kind"}:
        raise Unsupported("argsort options")
    return arrval(I, (spec, order, f"sorted by column {c}", keep), PERM)


def perm_item(I, a, k):
    spec, order, by, keep = tag_of(I, a[0])
    key = a[1]
    if isinstance(key, Slice) and key.a is None and key.b is None and key.c is not None and I.num(I.force(key.c)).const == -1:
        return arrval(I, (spec, order, by + ", reversed", keep), PERM)
    raise Unsupported("index of a permutation")


def is_float_dtype(dt):
    return dt is None or isinstance(dt, ClassVal) and dt.name in ("float", "np.float64") or isinstance(dt, Opaque)


def column_as(I, a, k):
    spec, order, c, keep = tag_of(I, a[0])
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    if isinstance(dt, ClassVal) and dt.name == "bool":
        if c != 1:
            return arrval(I, (spec, order + " (not the flag)", False, keep), MASK)
        return arrval(I, (spec, order, False, keep), MASK)
    if is_float_dtype(dt):
        return a[0]
    raise Unsupported("type of a column")


def column_eq(neg):
    def f(I, a, k):
        spec, order, c, keep = tag_of(I, a[0])
        n = I.num(I.force(a[1]))
        if c != 1 or n is None or n.const not in (0, 1):
            raise Unsupported("comparison of a column")
        return arrval(I, (spec, order, (n.const == 0) != neg, keep), MASK)
    return f


def mask_not(I, a, k):
    spec, order, neg, keep = tag_of(I, a[0])
    return arrval(I, (spec, order, not neg, keep), MASK)


def length(I, a, k):
    t = tag_of(I, a[0])
    n = t[0].count.get(t[3])
    if n is None:
        raise Unsupported("number of wrongly selected rows")
    return n


def column_list(I, a, k):
    t = tag_of(I, a[0])
    n = length(I, a, k)

    def no(J, i):
        raise Unsupported("element of the reported times")

    return I.alloc(HList((), SymSeq(n.t, no, ("times",) + t[1:]), "list", True))


def reshape(I, a, k):
    spec, order, two, keep = tag_of(I, a[0])
    dims = a[1:] if len(a) > 2 else I.iterate(a[1])
    if [ncols(I, x) for x in dims] != [-1, 2]:
        raise Unsupported("shape of the table")
    return arrval(I, (spec, order, True, keep), TABLE)


def table_as(I, a, k):
    dt = k.get("dtype", a[1] if len(a) > 1 else None)
    if is_float_dtype(dt):
        return a[0]
    raise Unsupported("type of the table")


def _cv(name, members):
    return ClassVal("ndarray", [T["np.ndarray"]], {n: b(n, f) for n, f in members.items()}, "numpy", name, False)


TABLE = _cv("table", {"__getitem__": table_item, "reshape": reshape, "__len__": length, "__asarray__": table_as, "astype": table_as, "copy": lambda I, a, k: a[0]})
COLUMN = _cv("column", {"__getitem__": column_item, "argsort": argsort, "__len__": length, "__asarray__": column_as, "astype": column_as,
                        "__eq__": column_eq(False), "__ne__": column_eq(True), "tolist": column_list, "copy": lambda I, a, k: a[0]})
PERM = _cv("perm", {"__getitem__": perm_item, "__len__": length})
MASK = _cv("mask", {"__invert__": mask_not, "__len__": length, "__asarray__": lambda I, a, k: a[0]})


class RowsTag:
    """The rows collected from the first k blocks."""

    def __init__(self, spec, k, added=()):
        self.spec, self.k, self.added = spec, k, added      # added: (condition, row) of the current block

    def merge_rows(self, I, gos):
        """Lists which differ in the rows added by the current block."""
        tags = [o.pre.tag for _, o in gos]
        if any(t.spec is not self.spec or t.k is not self.k for t in tags):
            raise CannotMerge("list")
        lists = [list(t.added) + [(TRUE, x) for x in o.items] for t, (_, o) in zip(tags, gos)]
        c = 0
        while all(len(x) > c for x in lists) and all(x[c][1] is lists[0][c][1] or I.same(x[c][1], lists[0][c][1]) for x in lists) and all(x[c][0].eq(lists[0][c][0]) for x in lists):
            c += 1
        out = lists[0][:c]
        for (g, _), x in zip(gos, lists):
            out += [(z_and([g, h]), v) for h, v in x[c:]]
        pre = gos[0][1].pre
        return HList((), SymSeq(I.int_("nrows").t, pre.get, RowsTag(self.spec, self.k, tuple(out))), "list")

    def as_array(self, I, o, kw):
        if o.items or self.added:
            raise Unsupported("array of an unfinished table")
        if not is_float_dtype(kw.get("dtype")):
            raise Unsupported("type of the table")
        return arrval(I, (self.spec, "in path order", False, None), TABLE)


class Box:
    def __init__(self, I):
        self.o = [real(I, "orig_" + c, ANYNUM) for c in "xyz"]
        self.len = [real(I, "len_" + c, ANYNUM) for c in "xyz"]
        for x in self.len:
            I.assume(cmp(I, x, ">", ZERO))
        half = Num(Fraction(1, 2), FLT)
        self.hi = [I.binop_num("+", o, mul(I, half, x)) for o, x in zip(self.o, self.len)]
        self.lo = [sub(I, o, mul(I, half, x)) for o, x in zip(self.o, self.len)]


class Path(SegBlocks):
    """Blocks with positions before (A) and after (A + d)."""

    def __init__(self, I, box):
        super().__init__(I, 1)
        self.box = box
        self.d = [ifun("d_" + c) for c in "xyz"]
        i, o = I.int_("entries"), I.int_("exits")
        I.assume(z_and([i.z() >= 0, o.z() >= 0]))
        self.count = {"in": i, "out": o, None: I.binop_num("+", i, o)}

    def ends(self, I, k):
        z = iz(k)
        A = [Num(Poly.atom(f(z)), FLT) for f in self.a]
        d = [Num(I.norm(Poly.atom(f(z))), FLT) for f in self.d]
        B = [I.binop_num("+", x, y) for x, y in zip(A, d)] + [Num(Poly.atom(self.b[3](z)), FLT)]
        return A, d, B

    def fields(self, I, k, z):
        f = super().fields(I, k, z)
        A, d, B = self.ends(I, k)
        f["state_B"] = mkstate(I, vec(I, "position", B), None)
        return f


class InverseTime:
    """Contract of inverse_time_at_pos: a time for every distance inside the block."""

    target = P + "planner_block.planner_block.inverse_time_at_pos"

    def apply(self, I, v):
        k = block_number(I, I.force(v["self"]))
        sp = I.st.ghost["path"]
        if k is None:
            raise Unsupported("time in another block")
        dist = num(I, next(x for n, x in v.items() if n != "self"))
        A, d, B = sp.ends(I, k)
        L = Num(I.sqrt(ssum(I, [sq(I, x) for x in d]).t, "norm", True), NPF)
        I.oblige(z_and([cmp(I, dist, ">=", ZERO), cmp(I, dist, "<=", L)]), "the time is asked for a point inside the move")
        r = real(I, "tau", NPF)
        I.st.ghost[("seen", "times")] = I.st.ghost.get(("seen", "times"), ()) + ((k, dist, r),)
        return r


class Rows(LoopSpec):
    """After k blocks: the rows are the crossings of the first k blocks, each with its time and direction."""

    name = "the rows are the crossings of the blocks passed so far"

    def __init__(self, case=None):
        self.case = case

    def match(self, I, L):
        return isinstance(base_tag(L.seq.tag), Path)

    def target(self, I, L):
        new = [v for v in I.get(L.frame).vars.values() if isinstance(v, Ref) and isinstance(I.get(v), HList) and not I.get(v).frozen]
        if len(new) != 1 or L.seq.tag is not base_tag(L.seq.tag):
            raise Unsupported("loop invariant: one list collects the crossings")
        return new[0]

    def rows(self, I, L, sp, k):
        L.data["spec"] = sp

        def no(J, i):
            raise Unsupported("a row of an earlier block")

        n = I.int_("nrows")
        I.assume(n.z() >= 0)
        I.st.heap[L.data["list"].id] = HList((), SymSeq(n.t, no, RowsTag(sp, k)), "list")

    def enter(self, I, L):
        L.data["list"] = r = self.target(I, L)
        I.oblige(cmp(I, I.seq_len(r), "==", ZERO), "loop invariant: no row before the first block")
        L.touch(r)

    def havoc(self, I, L, k):
        sp = base_tag(L.seq.tag)
        self.rows(I, L, sp, k)
        if L.k is None:
            return
        A, d, B = sp.ends(I, k)
        signs = []
        for i, x in enumerate(d):
            c = [cmp(I, x, op, ZERO) for op in (">", "<", "==")]
            if self.case is not None:
                I.assume(c[self.case[i]])
                signs.append(self.case[i])
            else:
                signs.append(I.choose(c))
        d = [Num(I.norm(x.t), FLT) for x in d]
        B = [I.binop_num("+", x, y) for x, y in zip(A, d)]
        L.data["signs"] = signs
        box = sp.box
        faces = []
        for i in range(3):
            for F, out in ((box.hi[i], 1), (box.lo[i], -1)):
                I.assume(z_and([z_not(eqn(I, A[i], F)), z_not(eqn(I, B[i], F))]))
                if signs[i] == 2:
                    continue
                f = I.binop_num("/", sub(I, F, A[i]), d[i])
                up = signs[i] == 0
                straddle = z_and([cmp(I, A[i], "<", F), cmp(I, F, "<", B[i])]) if up else z_and([cmp(I, B[i], "<", F), cmp(I, F, "<", A[i])])
                Q = [I.binop_num("+", A[j], mul(I, d[j], f)) for j in range(3)]
                for j in range(3):
                    if j != i:
                        I.assume(z3.Implies(straddle, z_and([z_not(eqn(I, Q[j], box.lo[j])), z_not(eqn(I, Q[j], box.hi[j]))])))
                x = z_and([straddle] + [z_and([cmp(I, box.lo[j], "<", Q[j]), cmp(I, Q[j], "<", box.hi[j])]) for j in range(3) if j != i])
                dist = Num(I.sqrt(ssum(I, [sq(I, mul(I, y, f)) for y in d]).t, "norm", True), NPF)
                # moving against the outward normal: entering
                faces.append((x, dist, (out > 0) != up, "xyz"[i] + ("-+"[out > 0])))
        L.data["faces"] = faces

    def check(self, I, L, k):
        o = I.get(L.data["list"])
        sp = base_tag(L.seq.tag)
        ok = isinstance(o, HList) and o.pre is not None and isinstance(o.pre.tag, RowsTag)
        I.oblige(TRUE if ok else FALSE, "loop invariant: the earlier rows are kept")
        if not ok:
            return
        faces = L.data["faces"]
        times = I.st.ghost.get(("seen", "times"), ())
        matches = []
        for g, it in list(o.pre.tag.added) + [(TRUE, x) for x in o.items]:
            r = I.iterate(I.force(it))
            if not isinstance(r, list) or len(r) != 2:
                I.oblige(FALSE, "a row holds a time and a direction")
                return
            t = num(I, r[0])
            s = zb(I.truth(r[1]))
            row = []
            for x, dist, enters, nm in faces:
                row.append(z_and([z_or([z_and([eqn(I, t, tau), eqn(I, dd, dist)]) for kk, dd, tau in times if I.norm(kk - L.k).is_zero()]), s if enters else z_not(s)]))
            matches.append((g, row))
        for j, (x, dist, enters, nm) in enumerate(faces):
            I.oblige(z3.Implies(x, z_or([z_and([g, m[j]]) for g, m in matches])), f"every crossing of the face {nm} is in the table with its time and direction")
        for g, m in matches:
            I.oblige(z3.Implies(g, z_or([z_and([f[0], y]) for f, y in zip(faces, m)])), "every row is a crossing of the boundary")
        I.oblige(ssum_bool([f[0] for f in faces]) == ssum_bool([g for g, _ in matches]), "as many rows as crossings")


def ssum_bool(cs):
    return z3.Sum([z3.If(c, z3.IntVal(1), z3.IntVal(0)) for c in cs]) if cs else z3.IntVal(0)


def u_submodel(case, named):
    def fn(I):
        box = Box(I)
        sp = Path(I, box)
        I.st.ghost["path"] = sp
        sim = simulation(I, "SImm", blocklist=sp.list(I))
        before = dict(I.get(sim).fields)
        f = cls(I, "tools:write_submodel_times")
        extra = I.str_("extra")
        r = I.force(I.call(f, [], {"simulation": sim, "sub_orig": I.alloc(HList(tuple(box.o), None, "list", True)), "sub_side_x_len": box.len[0], "sub_side_y_len": box.len[1],
                                   "sub_side_z_len": box.len[2], "filename": I.str_("path") if named else None, "note": extra}))
        unchanged(I, sim, before)

        def get(key):
            o = I.get(r) if isinstance(r, Ref) else None
            if not isinstance(o, HDict) or key not in o.ent:
                I.oblige(FALSE, f"the result contains {key}")
                raise PathDead()
            return I.force(I.getitem(r, key))

        for key, keep in (("time_in", "in"), ("time_out", "out")):
            v = get(key)
            t = I.get(v).pre.tag if isinstance(v, Ref) and isinstance(I.get(v), HList) and I.get(v).pre is not None else None
            if not (isinstance(t, tuple) and t[0] == "times"):
                raise Unsupported(f"{key} is computed in another way")
            I.oblige(TRUE if t[1] == "sorted by column 0" else FALSE, f"{key} in increasing order ({t[1]})")
            I.oblige(TRUE if t[2] == 0 else FALSE, f"{key} holds times")
            I.oblige(TRUE if t[3] == keep else FALSE, f"{key} holds the {keep} crossings")
        I.oblige(eqn(I, num(I, get("n_filaments")), sp.count["in"]), "the number of entries is reported")
        last = I.norm(sp.tr.n.t - Poly.const(1))
        I.oblige(eqn(I, num(I, get("time_process")), sp.tr.fun(sp.tr.te, last)), "the total process time is reported")
        I.oblige(zb(I.truth(I.eq(get("note"), extra))), "additional information is kept")
        dumps = [(n, a, k) for n, a, k in I.st.ghost.get("library_calls", ()) if "dump" in n]
        I.oblige(TRUE if len(dumps) == (1 if named else 0) else FALSE, "the file is written if a name is given")
        for n, a, k in dumps:
            I.oblige(TRUE if (k["data"] if "data" in k else a[0]) == r else FALSE, "the file holds the result")
    return fn


def units():
    out = []
    for m in (1, 2, 3):
        for dwell in (False, True):
            nm = f"inverse time, {m} phases" + (" and a dwell" if dwell else "")
            out.append(Unit(nm, u_inverse(m, dwell, "inside")))
            out.append(Unit(nm + ", beyond", u_inverse(m, dwell, "beyond")))
    for c in itertools.product(range(3), repeat=3):
        nm = "submodel times, move " + "".join(x + "+-0"[j] for x, j in zip("xyz", c))
        out.append(Unit(nm, u_submodel(c, True), contracts=[InverseTime()], loops=[Rows(c)], merge=True))
    return out
