"""Loops over symbolic sequences: proof by an invariant over the number of finished iterations."""

import ast

import z3

from .interp import HavocRead, z_and, z_not, zb
from .terms import Poly, compare
from .values import (
    INT, BreakEx, Builtin, ClassVal, ContinueEx, FuncVal, Havoc, HFrame, HInst, HList, Num, PathDead, PyRaise, Ref, ReturnEx, SymSeq, Unsupported,
)


class LoopSpec:
    """Invariant of one loop.

    enter(I, L)      obliges the invariant before the first iteration (state = the real state at loop entry)
    havoc(I, L, k)   replaces everything the loop changes by its value after k iterations and assumes the invariant
    check(I, L, k)   obliges the invariant after k iterations in the current (real) state
    touches          ids of heap objects the loop may change (set by enter/havoc through L.touch)
    """

    name = "loop"

    def match(self, I, L):
        return False

    def enter(self, I, L):
        pass

    def havoc(self, I, L, k):
        pass

    def check(self, I, L, k):
        pass


class L:
    """One loop instance."""

    def __init__(self, I, stmt, frame, seq):
        self.stmt, self.frame, self.seq = stmt, frame, seq
        self.n = seq.n
        self.touched = set()
        self.entry = dict(I.st.heap)
        self.func = I.call_stack[-1] if I.call_stack else ""
        self.k = None
        self.data = {}

    def has(self, I, name):
        return self._find(I, name) is not None

    def _find(self, I, name):
        r = self.frame
        while r is not None:
            o = I.get(r)
            if name in o.vars:
                return r
            r = Ref(o.parent) if o.parent is not None else None
        return None

    def var(self, I, name):
        r = self._find(I, name)
        if r is None:
            raise Unsupported(f"loop invariant: variable {name} does not exist")
        return I.get(r).vars[name]

    def set(self, I, name, v):
        r = self._find(I, name)
        if r is None:
            raise Unsupported(f"loop invariant: variable {name} does not exist")
        o = I.get(r)
        vs = dict(o.vars)
        vs[name] = v
        I.st.heap[r.id] = HFrame(vs, o.parent, o.qualname)
        self.data.setdefault("vars", set()).add((r.id, name))

    def touch(self, *refs):
        for r in refs:
            self.touched.add(r.id)


def stored_names(nodes):
    out = set()
    for node in nodes:
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


def base_tag(tag):
    """The tag of the sequence which a view (enumerate, slice, comprehension) was made of."""
    while hasattr(tag, "base"):
        tag = tag.base
    return tag


def havoc_names(I, lp):
    names = stored_names([lp.stmt.target] + list(lp.stmt.body)) if isinstance(lp.stmt, ast.For) else stored_names(lp.stmt.body)
    r = lp.frame
    for nm in names:
        q = lp._find(I, nm)
        own = I.get(r).vars
        if nm in own or q is None or I.get(q).parent is None:
            vs = dict(own)
            vs[nm] = Havoc(nm)
            I.st.heap[r.id] = HFrame(vs, I.get(r).parent, I.get(r).qualname)
        else:
            o = I.get(q)
            vs = dict(o.vars)
            vs[nm] = Havoc(nm)
            I.st.heap[q.id] = HFrame(vs, o.parent, o.qualname)
    lp.data["names"] = names


def frame_check(I, lp, before):
    """Whatever existed before the iteration and is not covered by the invariant must be unchanged."""
    ok = lp.data.get("vars", set())
    for i, old in before.items():
        new = I.st.heap.get(i)
        if new is old or i in lp.touched:
            continue
        if isinstance(old, HFrame) and isinstance(new, HFrame):
            for v in set(old.vars) | set(new.vars):
                if (i, v) in ok or v in lp.data["names"]:
                    continue
                a, b = old.vars.get(v), new.vars.get(v)
                if a is b or (v in old.vars and v in new.vars and I.same(a, b)):
                    continue
                raise Unsupported(f"the loop changes {v}, which its invariant does not mention")
            continue
        if old == new:
            continue
        raise Unsupported(f"the loop changes an object which its invariant does not mention ({type(old).__name__} {getattr(getattr(old, 'cls', None), 'name', '')})")


def for_loop(I, stmt, fr, seq):
    lp = L(I, stmt, fr, seq)
    spec = None
    for s in I.loops:
        if s.match(I, lp):
            spec = s
            break
    if spec is None:
        return auto_append(I, stmt, fr, seq)
    I.assumed_loops.add(f"{lp.func}: {spec.name}")
    spec.enter(I, lp)
    seq = lp.seq
    if I.decide(2) == 0:
        k = I.int_("k")
        lp.k = k.t
        I.assume(k.z() >= 0)
        I.assume(compare(I.norm(k.t - seq.n), "<", I.st.positive))
        if not I.feasible(zb(True)):
            raise PathDead()
        havoc_names(I, lp)
        spec.havoc(I, lp, k.t)
        before = dict(I.st.heap)
        I.assign(stmt.target, seq.get(I, k.t), fr)
        try:
            I.exec_block(stmt.body, fr)
        except ContinueEx:
            pass
        except BreakEx:
            frame_ok(I, lp, before)
            return
        frame_check(I, lp, before)
        spec.check(I, lp, I.norm(k.t + Poly.const(1)))
        raise PathDead()
    old = {}
    for nm in stored_names([stmt.target]):
        q = lp._find(I, nm)
        if q is not None and nm in I.get(q).vars:
            old[nm] = I.get(q).vars[nm]
    havoc_names(I, lp)
    last_values(I, lp, old)
    spec.havoc(I, lp, seq.n)
    I.exec_block(stmt.orelse, fr)


def last_values(I, lp, old):
    """After the loop its target variables hold the last element (or what they held before an empty loop)."""
    names = stored_names([lp.stmt.target]) - stored_names(lp.stmt.body)
    fr = lp.frame

    def resolve(nm):
        def f(J):
            if J.branch(compare(J.norm(lp.n), ">", J.st.positive)) if not lp.n.is_const() else lp.n.const_value() > 0:
                J.assign(lp.stmt.target, lp.seq.get(J, J.norm(lp.n - Poly.const(1))), fr)
                return lp.var(J, nm)
            if nm not in old:
                raise Unsupported("loop variable read after an empty loop")
            lp.set(J, nm, old[nm])
            return old[nm]
        return f

    for nm in names:
        if lp._find(I, nm) is not None:
            lp.set(I, nm, Havoc(nm, resolve(nm)))


def frame_ok(I, lp, before):
    pass


# ---------------------------------------------------------------- loops which only collect values


class PoisonClass(ClassVal):
    """A list of which the loop body may only append: anything else would make iterations depend on each other."""

    def lookup(self, name):
        if name in ("append", "write"):
            return Builtin("append", _poison_append), self
        raise Unsupported("the loop body reads what it collects")


def _poison_append(I, a, kw):
    ref, v = a
    o = I.get(ref)
    I.st.heap[ref.id] = HInst(o.cls, {"new": o.fields["new"] + (v,)}, False, "poison")


POISON = PoisonClass("collected", [], {}, "pyvc", "collected", False)


def closures_over(I, fr, body, stored):
    """Does the body call a nested function which sees (or sets) names of this frame which the loop stores?"""
    done = set()

    def bad(names):
        r = fr
        while r is not None:
            o = I.get(r)
            if o.parent is None:
                return False
            for k, v in o.vars.items():
                if k in names and isinstance(v, FuncVal) and v.closure is not None and I.get(Ref(v.closure)).parent is not None:
                    if k in done:
                        continue
                    done.add(k)
                    inner = list(ast.walk(v.node))
                    if any(isinstance(x, (ast.Nonlocal, ast.FunctionDef, ast.Lambda)) and x is not v.node for x in inner):
                        return True
                    mine = stored_names(v.node.body) | {a.arg for a in v.node.args.args + v.node.args.kwonlyargs + v.node.args.posonlyargs}
                    free = {x.id for x in inner if isinstance(x, ast.Name)} - mine
                    if free & stored or k in stored or bad(free):
                        return True
            r = Ref(o.parent)
        return False

    return bad({x.id for st in body for x in ast.walk(st) if isinstance(x, ast.Name)})


def auto_append(I, stmt, fr, seq):
    """A loop whose iterations are independent and append one value (or none, depending on a condition) to some lists."""
    if stmt.orelse:
        raise Unsupported("loop without invariant")
    if closures_over(I, fr, stmt.body, stored_names(list(stmt.body) + [stmt.target])):
        raise Unsupported("loop without invariant (nested function)")
    lp = L(I, stmt, fr, seq)
    n0 = dict(I.st.heap)
    w0 = I.st.ghost.get("writes", ())

    def once(J, k, lists, frame):
        """Run the body for index k; returns {list id: appended values}, written values."""
        for i in lists:
            J.st.heap[i] = HInst(POISON, {"new": ()}, False, "poison")
        J.st.ghost["writes"] = ()
        J.assign(stmt.target, seq.get(J, k), frame)
        try:
            J.exec_block(stmt.body, frame)
        except ContinueEx:
            pass
        except (BreakEx, ReturnEx):
            raise Unsupported("loop without invariant (it is left early)") from None
        return {i: J.get(Ref(i)).fields["new"] for i in lists}, J.st.ghost["writes"]

    # which lists collect?
    k = I.int_("k")
    kb = [k.z() >= 0, compare(I.norm(k.t - seq.n), "<", I.st.positive)]
    havoc_names(I, lp)
    before = dict(I.st.heap)

    def discover():
        for c in kb:
            I.assume(c)
        I.assign(stmt.target, seq.get(I, k.t), fr)
        try:
            I.exec_block(stmt.body, fr)
        except (ContinueEx, PyRaise):
            pass
        except (BreakEx, ReturnEx):
            raise Unsupported("loop without invariant (it is left early)") from None

    no, I.no_oblige = I.no_oblige, True
    m, I.merge = I.merge, 0
    try:
        outs = I.explore(discover)
    except HavocRead as e:
        raise Unsupported(f"loop without invariant (iterations depend on each other through {e.h.name})") from None
    finally:
        I.no_oblige, I.merge = no, m
    lists = {}
    for o in outs:
        for i, old in before.items():
            new = o.st.heap.get(i)
            if new is old or isinstance(old, HFrame) or isinstance(old, HInst) and old.tag == "mutseq":
                continue
            if isinstance(old, HList) and isinstance(new, HList) and new.pre is old.pre and new.items[:len(old.items)] == old.items:
                lists[i] = 1
                continue
            if old == new:
                continue
            raise Unsupported("loop without invariant (it changes more than the lists it appends to)")
    lists = list(lists)
    # every iteration: obligations and exceptions of the body
    writes = any(o.st.ghost.get("writes", ()) != w0 for o in outs)
    if I.decide(2) == 0:
        for c in kb:
            I.assume(c)
        if not I.feasible(zb(True)):
            raise PathDead()
        new, w = once(I, k.t, lists, fr)
        raise PathDead()
    heap0 = dict(I.st.heap)

    def run(J, idx):
        f = J.alloc(copy_frame(J, fr))
        m, J.merge = J.merge, 0      # paths differ in what they append: keep them apart
        try:
            return once(J, idx, lists, f)
        except PyRaise:
            raise PathDead() from None
        finally:
            J.merge = m

    def counts(J, idx):
        """[(guard, {list: n}, n writes)] of iteration idx."""
        def thunk():
            new, w = run(J, idx)
            return {i: len(v) for i, v in new.items()}, len(w)
        res = J.explore(lambda: past(J, heap0, thunk))
        return [(o.guard, o.value[0], o.value[1], o.facts) for o in res if o.kind == "normal"]

    cs = counts(I, k.t)
    I.assumed_loops.add(f"{lp.func}: collecting loop")
    for i in lists + (["writes"] if writes else []):
        ns = {c[2] if i == "writes" else c[1][i] for c in cs}    # the number of appended values on each path
        if ns == {1}:
            cond = None
        elif ns == {0, 1}:
            def cond(J, idx, i=i):
                from .interp import z_or
                cs = counts(J, idx)
                for g, _, _, facts in cs:
                    for f in facts:
                        J.assume(z3.Implies(g, f))
                return z_or([g for g, a, b, _ in cs if (b if i == "writes" else a[i]) == 1])
        elif ns == {0} or not ns:
            continue
        else:
            raise Unsupported("loop without invariant (it appends several values)")

        def get(J, idx, i=i):
            def thunk():
                new, w = run(J, idx)
                v = w if i == "writes" else new[i]
                if len(v) != 1:
                    raise PathDead()
                return v[0]
            return past(J, heap0, thunk)

        if cond is None:
            from .lib import MapTag
            s = SymSeq(seq.n, get, MapTag(seq.tag))
        else:
            s = I.lib.filtered(I, seq, cond, get)
        if i == "writes":
            I.st.ghost["writes"] = w0 + (("*", s),)
        else:
            o = I.get(Ref(i))
            if o.frozen:
                raise Unsupported("loop appends to a shared list")
            if o.pre is None and not o.items:
                r = HList((), s, o.kind)
            else:
                r = I.get(I.lib.concat_seqs(I, o, HList((), s)))
            I.st.heap[i] = r


def copy_frame(J, fr):
    o = J.get(fr)
    return HFrame(dict(o.vars), o.parent, o.qualname)


def past(J, heap0, thunk):
    """Evaluate with the heap objects of an earlier moment as they were then."""
    cur = J.st.heap
    J.st.heap = {**cur, **heap0}
    g = J.st.ghost.get("past", 0)
    w = J.st.ghost.get("writes")
    J.st.ghost["past"] = g + 1
    try:
        v = thunk()
    finally:
        st = J.st
        new = st.heap
        st.heap = {**new, **{i: x for i, x in cur.items() if i in heap0}}
        st.ghost["past"] = g
        if w is None:
            st.ghost.pop("writes", None)
        else:
            st.ghost["writes"] = w
    for i, x in heap0.items():
        if new.get(i) is not x and not isinstance(x, HFrame) and not (isinstance(new.get(i), HInst) and new[i].tag in ("mutseq", "poison")) and new.get(i) != x:
            raise Unsupported("evaluation of an element has a side effect")
    return v


# ---------------------------------------------------------------- sequences of mutable elements


MUTSEQ = ClassVal("mutseq", [], {}, "pyvc", "mutseq", False)


def mut_seq(I, n, content, tag=None):
    """A sequence of mutable lists: content(I, i) gives the heap object of element i as long as it was not touched.

    Returns (SymSeq, entries) where entries(I) lists the touched elements [(index, ref)].
    """
    store = I.alloc(HInst(MUTSEQ, {"entries": ()}, False, "mutseq"))

    def get(J, i):
        i = J.norm(i)
        es = J.get(store).fields["entries"]
        for j, r in es:
            if J.norm(i - j).is_zero():
                return r
        for j, r in es:
            if J.branch(compare(J.norm(i - j), "==", J.st.positive)):
                return r
        o = content(J, i)
        if J.st.ghost.get("past", 0):
            return J.alloc(HList(o.items, o.pre, o.kind, True, o.ghost))
        r = J.alloc(o)
        J.st.heap[store.id] = HInst(MUTSEQ, {"entries": es + ((i, r),)}, False, "mutseq")
        return r

    return SymSeq(n, get, tag), lambda J: J.get(store).fields["entries"], store
