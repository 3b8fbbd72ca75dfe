"""Lists whose elements are present under conditions, as left behind by merging the two ways through an `if`."""

import z3

from .terms import Poly
from .values import HFrame, HList, INT, Num, Opaque, PathDead, Phi, Ref, SymSeq, Unsupported

SKIP = Opaque("skip")


class GuardTag:
    def __init__(self, rows):
        self.rows = tuple(rows)      # (condition, value)


def rows_of(o):
    """Rows of a list object, or None."""
    if not isinstance(o, HList):
        return None
    if o.pre is None:
        pre = ()
    elif isinstance(o.pre.tag, GuardTag):
        pre = o.pre.tag.rows
    else:
        return None
    return list(pre) + [(z3.BoolVal(True), x) for x in o.items]


def count(I, rows):
    n = Num(0, INT)
    for g, _ in rows:
        n = I.binop_num("+", n, I.num(True if z3.is_true(g) else g))
    return n


def seq(I, rows):
    rows = tuple(rows)

    def get(J, idx):
        if J.guard_index is not None and J.guard_index[0] == idx and J.guard_index[1] is rows:
            return rows[J.guard_index[2]][1]
        conds, k = [], Num(0, INT)
        for g, _ in rows:
            conds.append(J_and(g, zbool(J.cmp_num(Num(idx, INT), k, "=="))))
            k = J.binop_num("+", k, J.num(True if z3.is_true(g) else g))
        return rows[J.choose(conds)][1]

    tag = GuardTag(rows)
    rows = tag.rows
    return SymSeq(count(I, rows).t, get, tag)


def J_and(*cs):
    return z3.simplify(z3.And(*cs))


def zbool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def make(I, rows, kind="list"):
    rows = [(z3.simplify(zbool(g)), v) for g, v in rows]
    rows = [(g, v) for g, v in rows if not z3.is_false(g)]
    if all(z3.is_true(g) for g, _ in rows):
        return I.alloc(HList(tuple(v for _, v in rows), None, kind))
    return I.alloc(HList((), seq(I, rows), kind))


def conjuncts(c, out=None):
    out = {} if out is None else out
    if z3.is_and(c):
        for x in c.children():
            conjuncts(x, out)
    else:
        out[c.get_id()] = c
    return out


def negation(c):
    return c.arg(0) if z3.is_not(c) else z3.Not(c)


_parts = {}


def maybe(I, g):
    """False only if g is impossible on this path (True may be wrong)."""
    g = zbool(g)
    if z3.is_true(g) or z3.is_false(g):
        return z3.is_true(g)
    parts = conjuncts(g)
    neg = {negation(c).get_id() for c in parts.values()}
    if any(k in neg for k in parts):
        return False
    open_ = set(parts)
    for c, b in I.st.pc:
        if not b:
            continue
        ks = _parts.get(c.get_id())
        if ks is None:
            ks = _parts[c.get_id()] = (tuple(conjuncts(c)), c)
        for k in ks[0]:
            if k in neg:
                return False
            open_.discard(k)
    if all(z3.is_const(parts[k]) or z3.is_not(parts[k]) and z3.is_const(parts[k].arg(0)) for k in open_):
        return True
    return I.feasible(g)


def under(I, g, v):
    """v where g holds: a union loses the alternatives which are impossible there."""
    if isinstance(v, Phi):
        alts = [(h, w) for h, w in v.alts if w is not SKIP and maybe(I, z3.And(g, h))]
        if len(alts) == 1:
            return under(I, g, alts[0][1])
        if alts and len(alts) < len(v.alts):
            return Phi(alts)
    return v


def merge_lists(I, gos):
    """Merged list of the outcomes (condition, list), or None."""
    lists = [rows_of(o) for _, o in gos]
    if any(x is None for x in lists) or len({o.kind for _, o in gos}) != 1:
        return None
    c = 0
    while all(len(x) > c for x in lists) and all(I.same(x[c][1], lists[0][c][1]) and x[c][0].eq(lists[0][c][0]) for x in lists):
        c += 1
    out = lists[0][:c]
    for (g, _), x in zip(gos, lists):
        for h, v in x[c:]:
            gh = J_and(g, h)
            out.append((gh, under(I, gh, v)))
    return HList((), seq(I, out), gos[0][1].kind, gos[0][1].frozen, gos[0][1].ghost)


def per_row(I, rows, fn):
    """fn(value) for each row, executed where the row exists: [(condition, result)]."""
    out = []
    for g, x in rows:
        g = zbool(g)
        if z3.is_true(g):
            m, I.merge = I.merge, 1
            try:
                outs = I.explore(lambda x=x: fn(x))
                v = I.join(outs)
            finally:
                I.merge = m
            out.append((g, v))
            continue

        def run_in(g=g, x=x):
            if not maybe(I, g):
                raise PathDead()
            I.assume(g, True)
            return fn(x)

        def run_out(g=g):
            ng = z3.Not(g)
            if not maybe(I, ng):
                raise PathDead()
            I.assume(ng, True)
            return SKIP

        m, I.merge = I.merge, 1
        try:
            outs = outside(I, g, I.explore(run_in))
            if not outs:
                continue
            if len(outs) == 1 and outs[0].kind == "normal" and pure(I, outs[0].st):
                v = outs[0].value
                for i, o in outs[0].st.heap.items():
                    I.st.heap.setdefault(i, o)
                for f in outs[0].facts:
                    I.assume(z3.Implies(outs[0].guard, f))
            else:
                v = I.join(outs + I.explore(run_out))
        finally:
            I.merge = m
        if v is SKIP:
            continue
        out.append((g, under(I, g, v)))
    return out


def pure(I, st):
    """Nothing but new objects."""
    a, b = I.st, st
    if any(b.heap.get(i) is not o for i, o in a.heap.items() if not isinstance(o, HFrame)) or a.rules != b.rules:
        return False
    if any(not frame_same(o, b.heap.get(i)) for i, o in a.heap.items() if isinstance(o, HFrame)):
        return False
    return a.ghost.keys() == b.ghost.keys() and all(b.ghost[k] is v for k, v in a.ghost.items())


def frame_same(a, b):
    return a is b or b is not None and a.vars.keys() == b.vars.keys() and all(b.vars[k] is v for k, v in a.vars.items())


def comprehension(I, rows, g, cf, elt):
    def cond(x):
        I.assign(g.target, x, cf)
        c = True
        for t in g.ifs:
            d = I.truth(I.eval(t, cf))
            if d is False:
                return False
            c = d if c is True else (c if d is True else z3.And(c, d))
        return c

    if g.ifs:
        cs = per_row(I, rows, cond)
        rows = [(r[0] if c is True else J_and(zbool(r[0]), zbool(c)), r[1]) for r, (_, c) in zip(live(rows, cs), cs)]
        rows = [(h, under(I, h, v)) for h, v in rows if not z3.is_false(h)]

    def value(x):
        I.assign(g.target, x, cf)
        return elt(cf)

    return make(I, per_row(I, rows, value))


def live(rows, res):
    gs = [h for h, _ in res]
    out = [r for r in rows if any(zbool(r[0]) is h or zbool(r[0]).eq(h) for h in gs)]
    if len(out) != len(res):
        raise Unsupported("rows of a guarded list")
    return out


def select(I, rows, test):
    out = []
    cs = per_row(I, rows, test)
    for (g, x), (_, c) in zip(live(rows, cs), cs):
        h = z3.simplify(zbool(g)) if c is True else J_and(zbool(g), zbool(c))
        if not z3.is_false(h):
            out.append((h, under(I, h, x)))
    return make(I, out)


def extremum(I, rows, op, default, has_default):
    """Least (greatest) of the rows which exist: a new number with its defining facts."""
    ns = []
    for g, x in rows:
        n = I.num(under(I, zbool(g), x))
        if n is None:
            raise Unsupported("min/max of a guarded sequence")
        ns.append((zbool(g), n))
    none = z3.simplify(z3.Not(z3.Or(*[g for g, _ in ns]))) if ns else z3.BoolVal(True)
    d = None
    if has_default:
        d = I.num(I.force(default))
        if d is None:
            raise Unsupported("min/max default")
    elif I.branch(none):
        I.raise_py("ValueError", "empty sequence")
    if not ns:
        return default
    if not all(n.t.is_int() for _, n in ns) or d is not None and not d.t.is_int():
        raise Unsupported("min/max of a guarded sequence")
    m = I.int_("ext")
    le = "<=" if op == "<" else ">="
    for g, n in ns:
        I.assume(z3.Implies(g, zbool(I.cmp_num(m, n, le))))
    alts = [z3.And(g, zbool(I.cmp_num(m, n, "=="))) for g, n in ns]
    if d is not None:
        alts.append(z3.And(none, zbool(I.cmp_num(m, d, "=="))))
    I.assume(z3.Or(*alts))
    return m


def outside(I, g, outs):
    """Outcomes of a row of a loop: what was learned about a row which is not looked at is forgotten."""
    if I.guard_focus is not None and not any(g.eq(f) for f in I.guard_focus):
        for o in outs:
            o.facts = []
    return outs
