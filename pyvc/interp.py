"""Symbolic interpreter for the verified Python subset: AST of the real code -> obligations."""

import ast
import itertools
import os
from fractions import Fraction

import z3

from . import terms
from .terms import Poly, atom_expr, atom_id, compare, from_z3, reduce_poly
from . import guarded, texts
from .values import (
    ANYNUM, FLT, INT, NPF, BMeth, BoundMethod, BreakEx, Builtin, ClassVal, ContinueEx, FuncVal, Havoc, HArr, HDict,
    HFile, HFrame, HInst, HList, ModuleVal, Num, Opaque, PathDead, Phi, PyRaise, Ref, ReturnEx, SStr, StrSort, SymSeq,
    Unsupported,
)

REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "pyGCodeDecode"
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
MISSING = object()
# ghost entries of branches which are merged: caches are dropped, lists of seen indices intersected or united, facts about one object kept
GHOST_CACHE = {"blockobj", "segobj", "type", "sqrt"}
GHOST_COMMON = {"traj"}
GHOST_UNION = {"blocks", "seen"}
GHOST_KEEP = {"blockno", "filter", "ext"}


class CannotMerge(Exception):
    pass


class State:
    __slots__ = ("heap", "pc", "rules", "positive", "ghost", "model")

    def __init__(self):
        self.model = None     # an assignment satisfying pc, when known
        self.heap = {}
        self.pc = []          # list of (z3 Bool, is_branch)
        self.rules = {}
        self.positive = frozenset()
        self.ghost = {}

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.rules = dict(self.rules)
        s.positive = self.positive
        s.ghost = dict(self.ghost)
        s.model = self.model
        return s


class Outcome:
    __slots__ = ("kind", "value", "st", "guard", "facts")

    def __init__(self, kind, value, st, guard, facts):
        self.kind, self.value, self.st, self.guard, self.facts = kind, value, st, guard, facts


class Ctx:
    __slots__ = ("prefix", "pos", "trace", "alts", "top")

    def __init__(self, prefix, top=False):
        self.top = top
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []


class Obligation:
    __slots__ = ("name", "hyps", "goal", "hint", "unit", "where", "inputs", "trivial")

    def __init__(self, name, hyps, goal, unit, where, inputs, trivial=False):
        self.name, self.hyps, self.goal = name, hyps, goal
        self.unit, self.where, self.inputs = unit, where, inputs
        self.hint = None
        self.trivial = trivial


def z_and(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def z_or(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return FALSE
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return z3.Or(*xs)


def z_not(x):
    if z3.is_not(x):
        return x.children()[0]
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%",
}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "//": "floordiv", "%": "mod"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}


class CallName(str):
    """Name of a function which is being executed, with its frame."""

    frame = None


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.st = State()
        self.ctx = Ctx([])
        self.ids = itertools.count(1)
        self.guard_focus = self.guard_index = None
        self.guarded = False     # lists which differ between merged paths keep their elements under conditions
        self.name_no = 0
        self.perm_no = 0
        self.obls = []
        self.obl_seen = {}
        self.unit = ""
        self.inputs = {}
        self.contracts = {}
        self.bypass = set()
        self.merge = 0
        self.modules = {}
        self.shared_below = 0       # heap ids of objects made by the modules' code
        self.asts = {}
        self.sqrt_cache = {}
        self.inv_cache = {}
        self.feas_cache = {}
        self.feas_keep = []
        self.cand = None
        self.split = None     # (part, parts, depth): explore only one part of the paths
        self.executed = set()
        self.assumed = set()
        self.loops = []          # loop invariants (pyvc.loops.LoopSpec)
        self.whiles = []
        self.assumed_loops = set()
        self.call_stack = []
        self.node = None
        self.depth = 0
        self.no_oblige = 0
        self.stats = {"paths": 0, "feas": 0}
        self.budget = 6000
        from . import lib

        self.lib = lib
        lib.install(self)

    # ------------------------------------------------------------------ basics
    def fresh_name(self, base):
        self.name_no += 1
        return f"{base}!{self.name_no}"

    def perm_name(self, base):
        """Name of a value cached across paths (never reused)."""
        self.perm_no += 1
        return f"{base}!!{self.perm_no}"

    def real(self, base="r", ty=FLT):
        return Num(Poly.atom(z3.Real(self.fresh_name(base))), ty)

    def int_(self, base="i"):
        return Num(Poly.atom(z3.Int(self.fresh_name(base))), INT)

    def bool_(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def str_(self, base="s"):
        return SStr(z3.Const(self.fresh_name(base), StrSort), base)

    def alloc(self, o):
        i = next(self.ids)
        self.st.heap[i] = o
        return Ref(i)

    def get(self, r):
        return self.st.heap[r.id]

    def put(self, r, o):
        old = self.st.heap.get(r.id)
        if old is not None and getattr(old, "frozen", False):
            f = self.st.ghost.get("frozen_violation")
            if f is not None:
                self.oblige(FALSE, f)
                raise PathDead()
            raise Unsupported(f"mutation of an element of a shared symbolic structure ({getattr(old, 'tag', '')})")
        if r.id < self.shared_below:
            self.shared_write()
        self.st.heap[r.id] = o

    def shared_write(self):
        """A module or class variable, or a default value, is modified: what a call does may then depend on earlier calls,
        but every unit begins with these objects as the module's code leaves them."""
        raise Unsupported("modifies an object which outlives the call (module or class variable, default value)")

    def new_list(self, items, kind="list"):
        return self.alloc(HList(tuple(items), None, kind))

    def new_arr(self, data):
        return self.alloc(HArr(data))

    def new_dict(self, d):
        return self.alloc(HDict({k: (TRUE, v) for k, v in d.items()}))

    # ------------------------------------------------------------------ assumptions / paths
    def assume(self, c, branch=False):
        c = zb(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x, branch)
            return
        if any(c.eq(x) for x, _ in self.st.pc):
            return
        self.st.pc.append((c, branch))
        m = self.st.model
        if m is not None and not self.holds(m, c):
            m = None
        if m is None and self.cand is not None and self.cand[0] == c.get_id() and self.cand[1] == len(self.st.pc) - 1:
            m = self.cand[2]
        self.st.model = m
        self._learn_positive(c)

    def _learn_positive(self, c):
        k = c.decl().kind()
        pos = None
        if k in (z3.Z3_OP_GT, z3.Z3_OP_LT):
            a, b = c.children()
            if k == z3.Z3_OP_LT:
                a, b = b, a
            if self._is_zero(b):
                pos = a
        if pos is not None:
            p = from_z3(pos)
            s = p.single_monomial()
            if s and s[1] > 0 and len(s[0]) == 1 and s[0][0][1] % 2:
                self.st.positive = self.st.positive | {s[0][0][0]}

    @staticmethod
    def _is_zero(b):
        return (z3.is_int_value(b) or z3.is_rational_value(b)) and b.as_fraction() == 0 if z3.is_rational_value(b) else (
            z3.is_int_value(b) and b.as_long() == 0
        )

    def hyps(self):
        return [c for c, _ in self.st.pc]

    @staticmethod
    def holds(m, c):
        try:
            return z3.is_true(m.eval(c, model_completion=True))
        except z3.Z3Exception:
            return False

    def feasible(self, extra):
        """False only if pc and extra are certainly contradictory."""
        extra = zb(extra)
        if z3.is_false(extra):
            return False
        hyps = self.hyps()
        key = (extra.get_id(),) + tuple(h.get_id() for h in hyps)
        r = self.feas_cache.get(key)
        if r is not None:
            return r
        if self.st.model is not None and self.holds(self.st.model, extra):
            return True
        self.stats["feas"] += 1
        s = z3.Solver()
        for h in hyps:
            s.add(h)
        s.add(extra)
        r = quick_check(s, 400, 400000)
        if r == z3.sat:
            self.cand = (extra.get_id(), len(hyps), s.model())
        r = r != z3.unsat
        self.feas_cache[key] = r
        self.feas_keep.append((extra, hyps))
        return r

    def implied(self, c):
        c = zb(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.feasible(z_not(c))

    def surely(self, c):
        """Is c implied by the hypotheses which share symbols with it?"""
        from .smt import relevant

        hyps = self.hyps()
        key = ("surely", c.get_id()) + tuple(h.get_id() for h in hyps)
        if key not in self.feas_cache:
            r = False
            for depth in (1, 2, 3):
                s = z3.Solver()
                s.add(*relevant(hyps, c, depth))
                s.add(z3.Not(c))
                if quick_check(s, 300, 300000) == z3.unsat:
                    r = True
                    break
            self.feas_cache[key] = r
            self.feas_keep.append((c, hyps))
        return self.feas_cache[key]

    def decide(self, n):
        """Nondeterministic choice among n alternatives (explored exhaustively)."""
        c = self.ctx
        if c.pos < len(c.prefix):
            k = c.prefix[c.pos]
        else:
            k = 0
            c.alts.append((list(c.trace), n))
        c.pos += 1
        c.trace.append(k)
        if c.top and self.split is not None and len(c.trace) == self.split[2]:
            h = 0
            for x in c.trace:
                h = (h * 31 + x + 1) % 1000003
            if h % self.split[1] != self.split[0]:
                raise PathDead()
        return k

    def branch(self, c):
        """Fork on a condition; returns a Python bool."""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        cs = z3.simplify(c)
        if z3.is_true(cs):
            return True
        if z3.is_false(cs):
            return False
        for h, _ in self.st.pc:
            if h.eq(c):
                return True
            if h.eq(z_not(c)) or (z3.is_not(h) and h.children()[0].eq(c)):
                return False
        ft, ff = self.feasible(c), self.feasible(z_not(c))
        if not ft and not ff:
            raise PathDead()
        if not ff:
            self.assume(c)
            return True
        if not ft:
            self.assume(z_not(c))
            return False
        if self.decide(2) == 0:
            self.assume(c, True)
            return True
        self.assume(z_not(c), True)
        return False

    def choose(self, conds):
        """Choose i with conds[i] (exhaustive disjunction expected); returns index."""
        live = [i for i, c in enumerate(conds) if not z3.is_false(zb(c)) and self.feasible(c)]
        if not live:
            raise PathDead()
        i = live[0] if len(live) == 1 else live[self.decide(len(live))]
        self.assume(conds[i], len(live) > 1)
        return i

    def explore(self, thunk, top=False):
        """All outcomes of thunk from the current state (the current state is left unchanged)."""
        st0, ctx0, depth0, stack0, merge0 = self.st, self.ctx, self.depth, list(self.call_stack), self.merge
        n0 = len(st0.pc)
        outs = []
        pending = [[]]
        names0 = self.name_no
        while pending:
            prefix = pending.pop()
            if top:      # alternative paths are never merged: replay with the same names
                self.name_no = names0
            self.st = st0.copy()
            self.ctx = Ctx(prefix, top)
            self.depth = depth0
            self.call_stack = list(stack0)
            self.merge = merge0
            self.stats["paths"] += 1
            if self.stats["paths"] > self.budget:
                raise Unsupported("path budget exceeded")
            try:
                try:
                    v = thunk()
                    kind = "normal"
                except ReturnEx as e:
                    kind, v = "return", e.v
                except BreakEx:
                    kind, v = "break", None
                except ContinueEx:
                    kind, v = "continue", None
                except PyRaise as e:
                    kind, v = "raise", e
                if top and self.split is not None and len(self.ctx.trace) < self.split[2] and self.split[0] != 0:
                    raise PathDead()
                new = self.st.pc[n0:]
                outs.append(
                    Outcome(kind, v, self.st, z_and([c for c, b in new if b]), [c for c, b in new if not b])
                )
            except PathDead:
                pass
            for tr, n in self.ctx.alts[::-1]:
                for k in range(n - 1, 0, -1):
                    pending.append(tr + [k])
        self.st, self.ctx, self.depth, self.call_stack, self.merge = st0, ctx0, depth0, stack0, merge0
        return outs

    # ------------------------------------------------------------------ obligations
    def oblige(self, goal, name, assume_after=True):
        goal = zb(goal)
        where = self.where()
        if not self.no_oblige:
            triv = z3.is_true(goal)
            if not triv:
                g2 = z3.simplify(goal)
                triv = z3.is_true(g2)
            hyps = self.hyps()
            if not triv and any(goal.eq(h) for h in hyps):
                triv = True
            key = (name, goal.get_id()) + (() if triv else tuple(h.get_id() for h in hyps))
            if key not in self.obl_seen:
                o = Obligation(f"{self.unit}: {name}", hyps, goal, self.unit, where, dict(self.inputs), triv)
                self.obl_seen[key] = o
                self.obls.append(o)
        if assume_after:
            self.assume(goal)

    def where(self):
        f = self.call_stack[-1] if self.call_stack else ""
        return f

    # ------------------------------------------------------------------ merging
    def merge_values(self, gvs):
        """gvs: list of (guard, value), guards exhaustive and exclusive."""
        v0 = gvs[0][1]
        if all(self.same(v0, v) for _, v in gvs[1:]):
            return v0
        vals = [v for _, v in gvs]
        if any(v is MISSING or isinstance(v, Havoc) for v in vals):
            return Havoc("merge")
        if all(isinstance(v, Num) for v in vals):
            ty = frozenset().union(*[v.ty for v in vals])
            ints = all(v.t.is_int() for v in vals)
            if ty == INT and not ints:
                ints = False
            e = vals[-1].z() if ints else vals[-1].zr()
            for g, v in reversed(gvs[:-1]):
                x = v.z() if ints else v.zr()
                if not x.eq(e):
                    e = z3.If(g, x, e)
            return Num(Poly.atom(e) if z3.is_app_of(e, z3.Z3_OP_ITE) else from_z3(e), ty)
        if all(isinstance(v, (bool, z3.BoolRef)) for v in vals):
            return z3.simplify(z_or([z_and([g, zb(v)]) for g, v in gvs]))
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.merge_values([(g, v[i]) for g, v in gvs]) for i in range(len(v0)))
        out = []
        for g, v in gvs:
            for g2, w in (v.alts if isinstance(v, Phi) else [(TRUE, v)]):
                gg = z_and([g, g2])
                for j, (h, u) in enumerate(out):
                    if self.same(u, w):
                        out[j] = (z_or([h, gg]), u)
                        break
                else:
                    out.append((gg, w))
        return Phi(out) if len(out) > 1 else out[0][1]

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Num) and isinstance(b, Num):
            return a.t == b.t and a.ty == b.ty
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if isinstance(a, SStr) and isinstance(b, SStr):
            return a.z.eq(b.z)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if type(a) is type(b) and isinstance(a, (str, bool, int, Ref, type(None))):
            return a == b
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return self.same(a.func, b.func) and self.same(a.self_, b.self_)
        return False

    def merge_objs(self, gos):
        o0 = gos[0][1]
        if all(o is o0 for _, o in gos):
            return o0
        if any(type(o) is not type(o0) for _, o in gos):
            raise CannotMerge("object kinds")
        if isinstance(o0, HFrame):
            keys = {k: 1 for _, o in gos for k in o.vars}
            return HFrame(
                {k: self.merge_values([(g, o.vars.get(k, MISSING)) for g, o in gos]) for k in keys}, o0.parent, o0.qualname
            )
        if isinstance(o0, HInst):
            if any(o.cls is not o0.cls for _, o in gos):
                raise CannotMerge("class")
            keys = {k: 1 for _, o in gos for k in o.fields}
            return HInst(
                o0.cls, {k: self.merge_values([(g, o.fields.get(k, MISSING)) for g, o in gos]) for k in keys}, o0.frozen, o0.tag
            )
        if isinstance(o0, HDict):
            keys = {k: 1 for _, o in gos for k in o.ent}
            ent = {}
            for k in keys:
                have = [(g, o.ent[k]) for g, o in gos if k in o.ent]
                guard = z_or([z_and([g, e[0]]) for g, e in have])
                if len(have) == len(gos) and all(z3.is_true(e[0]) for _, e in have):
                    guard = TRUE
                ent[k] = (guard, self.merge_values([(g, e[1]) for g, e in have]))
            return HDict(ent, o0.frozen, o0.tag)
        if isinstance(o0, HList):
            if any(o.pre is not o0.pre or len(o.items) != len(o0.items) for _, o in gos):
                if all(o.pre is not None and hasattr(o.pre.tag, "merge_rows") and o.kind == o0.kind for _, o in gos):
                    return o0.pre.tag.merge_rows(self, gos)
                if self.guarded:
                    r = guarded.merge_lists(self, gos)
                    if r is not None:
                        return r
                raise CannotMerge("list")
            return HList(
                tuple(self.merge_values([(g, o.items[i]) for g, o in gos]) for i in range(len(o0.items))), o0.pre, o0.kind, o0.frozen, o0.ghost
            )
        if isinstance(o0, HArr) and len({self.lib._shape(o.data) for _, o in gos}) == 1:
            return HArr(self.merge_values([(g, o.data) for g, o in gos]), o0.frozen)
        raise CannotMerge(type(o0).__name__)

    def merged(self, thunk):
        """Value of thunk with its forks merged into one term."""
        m, self.merge = self.merge, 1
        try:
            return self.join(self.explore(thunk))
        finally:
            self.merge = m

    def merge_states(self, outs):
        """Merge outcome states into self.st; returns merged value."""
        base = self.st
        st = State()
        gs = [o.guard for o in outs]
        ids = {}
        for o in outs:
            for i in o.st.heap:
                ids[i] = 1
        heap = {}
        for i in ids:
            objs = [(o.guard, o.st.heap[i]) for o in outs if i in o.st.heap]
            heap[i] = objs[0][1] if len(objs) == 1 else self.merge_objs(objs)
        value = self.merge_values([(o.guard, o.value) for o in outs])
        st.heap = heap
        st.pc = list(base.pc)
        pos = outs[0].st.positive
        for o in outs:
            pos = pos & o.st.positive
        rules = {k: r for k, r in outs[0].st.rules.items() if all(k in o.st.rules and o.st.rules[k] == r for o in outs)}
        st.positive = pos
        st.rules = rules
        st.ghost = dict(base.ghost)
        for k in {k: 1 for o in outs for k in o.st.ghost}:
            vs = [o.st.ghost.get(k) for o in outs]
            if all(v is vs[0] for v in vs):
                st.ghost[k] = vs[0]
            elif isinstance(k, tuple) and k[0] in GHOST_CACHE:
                st.ghost.pop(k, None)
            elif isinstance(k, tuple) and k[0] in GHOST_COMMON:
                vs = [v or () for v in vs]
                st.ghost[k] = tuple(x for x in vs[0] if all(x in v for v in vs))
            elif isinstance(k, tuple) and k[0] in GHOST_UNION:
                u = []
                for v in vs:
                    u += [x for x in v or () if x not in u]
                st.ghost[k] = tuple(u)
            elif isinstance(k, tuple) and k[0] in GHOST_KEEP and len({id(v) for v in vs if v is not None}) == 1:
                st.ghost[k] = [v for v in vs if v is not None][0]
            else:
                raise CannotMerge("ghost")
        self.st = st
        if len(outs) == 1:
            if not z3.is_true(gs[0]):
                self.assume(gs[0], True)
            for f in outs[0].facts:
                self.assume(f)
            st.positive = outs[0].st.positive
        else:
            d = z3.simplify(z_or(gs))
            if not z3.is_true(d):
                self.assume(z_or(gs))
            for o in outs:
                for f in o.facts:
                    self.assume(z3.Implies(o.guard, f) if not z3.is_true(o.guard) else f)
        return value

    def join(self, outs):
        """Continue with outcomes: merge the normal ones, fork over the others."""
        if not outs:
            raise PathDead()
        normal = [o for o in outs if o.kind == "normal"]
        other = [o for o in outs if o.kind != "normal"]
        groups = []
        if normal:
            st0 = self.st
            try:
                self.merge_states(normal)
                groups.append(("merged", normal))
            except CannotMerge:
                groups += [("one", [o]) for o in normal]
            self.st = st0
        # merge returns as well
        rets = [o for o in other if o.kind == "return"]
        if len(rets) > 1:
            st0 = self.st
            try:
                self.merge_states(rets)
                groups.append(("merged", rets))
                other = [o for o in other if o.kind != "return"]
            except CannotMerge:
                pass
            self.st = st0
        groups += [("one", [o]) for o in other]
        k = 0 if len(groups) == 1 else self.decide(len(groups))
        g = groups[k][1]
        v = self.merge_states(g)
        if len(groups) > 1:
            self.assume(z_or([o.guard for o in g]), True)
        kind = g[0].kind
        if kind == "normal":
            return v
        if kind == "return":
            raise ReturnEx(v)
        if kind == "break":
            raise BreakEx()
        if kind == "continue":
            raise ContinueEx()
        raise g[0].value

    # ------------------------------------------------------------------ numbers
    def norm(self, p):
        return reduce_poly(p, self.st.rules)

    def cmp_poly(self, a, b, op):
        p = self.norm(a - b)
        c = compare(p, op, self.st.positive)
        return c if not isinstance(c, bool) else c

    def cmp_num(self, a, b, op):
        c = self.cmp_poly(a.t, b.t, op)
        return c

    def sign_pos(self, p):
        """True if p > 0 certainly."""
        if p.is_const():
            return p.const_value() > 0
        s = p.single_monomial()
        if s and s[1] > 0 and all(a in self.st.positive or e % 2 == 0 and self._nonzero_atom(a) for a, e in s[0]):
            return True
        return self.implied(compare(self.norm(p), ">", self.st.positive))

    def _nonzero_atom(self, a):
        return a in self.st.positive

    def sign_nonneg(self, p):
        if p.is_const():
            return p.const_value() >= 0
        if all(c > 0 and all(e % 2 == 0 or a in self.st.positive for a, e in mon) for mon, c in p.m.items()):
            return True
        return self.implied(compare(self.norm(p), ">=", self.st.positive))

    @staticmethod
    def res_ty(a, b, div=False):
        out = set()
        for x in a:
            for y in b:
                if "np" in (x, y):
                    out.add("np")
                elif "float" in (x, y) or div:
                    out.add("float")
                else:
                    out.add("int")
        return frozenset(out)

    def num(self, v):
        if isinstance(v, bool):
            return Num(int(v), INT)
        if isinstance(v, z3.BoolRef):
            return Num(Poly.atom(z3.If(v, z3.IntVal(1), z3.IntVal(0))), INT)
        if isinstance(v, Num):
            return v
        return None

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            s = x.single_monomial()
            if s and len(s[0]) == 1 and s[0][0][1] == 1 and not y.is_const():
                e = atom_expr(s[0][0][0])
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    c, p, q = e.children()
                    if _const_ite(p) and _const_ite(q):
                        l = self.mul(from_z3(p) if not z3.is_app_of(p, z3.Z3_OP_ITE) else Poly.atom(p), y.scale(s[1]))
                        r = self.mul(from_z3(q) if not z3.is_app_of(q, z3.Z3_OP_ITE) else Poly.atom(q), y.scale(s[1]))
                        if l == r:
                            return l
                        lz, rz = l.to_z3(), r.to_z3()
                        if lz.is_int() != rz.is_int():
                            lz = z3.ToReal(lz) if lz.is_int() else lz
                            rz = z3.ToReal(rz) if rz.is_int() else rz
                        return Poly.atom(z3.If(c, lz, rz))
        return self.norm(a * b)

    def binop_num(self, op, a, b):
        if op == "+":
            return Num(a.t + b.t, self.res_ty(a.ty, b.ty))
        if op == "-":
            return Num(a.t - b.t, self.res_ty(a.ty, b.ty))
        if op == "*":
            return Num(self.mul(a.t, b.t), self.res_ty(a.ty, b.ty))
        if op == "/":
            return Num(self.div(a.t, b.t), self.res_ty(a.ty, b.ty, True))
        if op == "**":
            if b.t.is_const():
                e = b.t.const_value()
                if e.denominator == 1 and 0 <= e <= 8:
                    r = Poly.const(1)
                    for _ in range(int(e)):
                        r = self.mul(r, a.t)
                    return Num(r, self.res_ty(a.ty, b.ty))
                if e == Fraction(1, 2):
                    return Num(self.sqrt(a.t), self.res_ty(a.ty, b.ty))
                if e == -1:
                    return Num(self.div(Poly.const(1), a.t), self.res_ty(a.ty, b.ty, True))
        if op in ("//", "%") and a.const is not None and b.const is not None and b.const != 0:
            q = a.const / b.const
            f = q.numerator // q.denominator
            return Num(f if op == "//" else a.const - f * b.const, self.res_ty(a.ty, b.ty))
        raise Unsupported(f"arithmetic operator {op}")

    def div(self, a, b):
        b = self.norm(b)
        a = self.norm(a)
        if b.is_const():
            if b.const_value() == 0:
                self.oblige(FALSE, "denominator is not zero")
                raise PathDead()
            return a.scale(1 / b.const_value())
        self.oblige(compare(b, "!=", self.st.positive), "denominator is not zero")
        if a.is_zero():
            return a
        q = self.exact_div(a, b)
        if q is not None:
            return q
        s = b.single_monomial()
        if s:
            return self.norm(a * b.mon_pow_neg())
        # general denominator: hash-consed inverse, normalised to leading coefficient 1
        lead = sorted(b.m.items())[0][1]
        bn = b.scale(1 / lead)
        inv = self.inv_cache.get(bn.key())
        if inv is None:
            inv = z3.Real(self.perm_name("inv"))
            self.inv_cache[bn.key()] = inv
        p = Poly.atom(inv)
        bz = bn.to_z3()
        self.assume(inv * bz == 1)
        if self.sign_pos(bn) or self.surely(bz > 0):
            self.assume(inv > 0)
        return self.norm(a * p).scale(1 / lead)

    def exact_div(self, a, b):
        """a / b when a is a monomial multiple of b."""
        if len(b.m) < 2:
            return None
        if len(a.m) != len(b.m):
            return None
        bm = sorted(b.m.items())
        m0, c0 = bm[0]
        inv = tuple((x, -e) for x, e in m0)
        for am, ac in a.m.items():
            f = terms.mon_mul(am, tuple(sorted(inv)))
            fac = Poly({f: ac / c0})
            if b * fac == a:
                return fac
        return None

    def sqrt(self, p, name="sqrt", nonneg=False):
        p = self.norm(p)
        if p.is_const():
            c = p.const_value()
            if c < 0:
                self.oblige(FALSE, "square root argument is not negative")
                raise PathDead()
            import math

            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Poly.const(Fraction(n, d))
        # pull out an even monomial / square content
        s = p.single_monomial()
        if s and all(e % 2 == 0 for _, e in s[0]):
            import math

            c = s[1]
            if c > 0:
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    root = Poly({tuple((a, e // 2) for a, e in s[0]): Fraction(n, d)})
                    return self.abs_poly(root)
        # common even monomial factor (also negative exponents)
        common = None
        for mon in p.m:
            d = dict(mon)
            if common is None:
                common = d
            else:
                keys = set(common) | set(d)
                common = {a: min(common.get(a, 0), d.get(a, 0)) for a in keys}
        fac = {a: (e // 2) * 2 for a, e in (common or {}).items() if (e // 2) * 2 != 0}
        if fac and not p.is_const():
            root = Poly({tuple(sorted((a, e // 2) for a, e in fac.items())): Fraction(1)})
            rest = p * Poly({tuple(sorted((a, -e) for a, e in fac.items())): Fraction(1)})
            if rest != p:
                return self.norm(self.abs_poly(root) * self.sqrt(rest, name, nonneg))
        total = nonneg or self.ctx.top      # a rule made in a branch which is merged later must hold outside of it as well
        if all(c > 0 and all(e % 2 == 0 for _, e in mon) for mon, c in p.m.items()):
            total = True
        else:
            if nonneg:      # a sum of squares
                self.assume(compare(p, ">=", self.st.positive))
            else:
                self.oblige(compare(p, ">=", self.st.positive), "square root argument is not negative")
        # normalise numeric content to square-free-ish leading coefficient
        key = p.key()
        v = self.sqrt_cache.get(key)
        if v is None:
            v = z3.Real(self.perm_name(name))
            self.sqrt_cache[key] = v
        a = atom_id(v)
        known = a in self.st.rules or any(("sqrt", a) == k for k in self.st.ghost)
        if not known:
            self.st.ghost[("sqrt", a)] = True
            self.assume(v >= 0)
            pz = compare(Poly({((a, 2),): Fraction(1)}) - p, "==", self.st.positive)
            self.assume(pz)
            # choose the rewriting direction
            elim = None
            if len(p.m) > 1 and total:
                for mon, c in sorted(p.m.items(), key=lambda kv: kv[0], reverse=True):
                    if len(mon) == 1 and mon[0][1] == 2 and mon[0][0] not in self.st.rules:
                        b = mon[0][0]
                        if not any(b in dict(m2) for m2 in p.m if m2 != mon) and self.elim_ok(b):
                            elim = (b, mon, c)
                            break
            if elim:
                b, mon, c = elim
                rhs = (Poly({((a, 2),): Fraction(1)}) - Poly({k: x for k, x in p.m.items() if k != mon})).scale(1 / c)
                self.add_rule(b, rhs)
            else:
                self.add_rule(a, p)
            if self.sign_pos(p):
                self.assume(v > 0)
        return Poly.atom(v)

    def elim_ok(self, atom):
        n = str(atom_expr(atom))
        return n.startswith("d") or n.startswith("v")

    def add_rule(self, a, rhs):
        rules = self.st.rules
        rhs = reduce_poly(rhs, rules)
        if any(x == a and e >= 1 for mon in rhs.m for x, e in mon) or any(
            x == a and e < 0 for mon in rhs.m for x, e in mon
        ):
            return
        new = {a: rhs}
        out = {k: reduce_poly(v, new) for k, v in rules.items()}
        out[a] = rhs
        self.st.rules = out

    def abs_poly(self, p):
        if p.is_const():
            return Poly.const(abs(p.const_value()))
        if self.sign_nonneg(p):
            return p
        if self.implied(compare(self.norm(p), "<=", self.st.positive)):
            return -p
        if self.merge:
            e = p.to_z3()
            return Poly.atom(z3.If(e >= 0, e, -e))
        c = compare(self.norm(p), ">=", self.st.positive)
        if self.branch(c):
            return p
        return -p

    # ------------------------------------------------------------------ type queries
    def type_names(self, v):
        """Possible python types of v as a list of ClassVal."""
        L = self.lib
        if isinstance(v, (bool, z3.BoolRef)):
            return [L.T["bool"]]
        if isinstance(v, Num):
            return [{"int": L.T["int"], "float": L.T["float"], "np": L.T["np.float64"]}[x] for x in sorted(v.ty)]
        if isinstance(v, (str, SStr)):
            return [L.T["str"]]
        if v is None:
            return [L.T["NoneType"]]
        if isinstance(v, tuple):
            return [L.T["tuple"]]
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HInst):
                return [o.cls]
            if isinstance(o, HList):
                return [L.T[o.kind]]
            if isinstance(o, HDict):
                return [L.T["dict"]]
            if isinstance(o, HArr):
                return [L.T["np.ndarray"]]
        if isinstance(v, SymSeq):
            return [L.T["list"]]
        if isinstance(v, ClassVal):
            return [L.T["type"]]
        return [L.T["object"]]

    def resolve_type(self, v):
        """Fix one concrete type for v (forking over number kinds); returns (value, ClassVal)."""
        ts = self.type_names(v)
        if len(ts) == 1:
            return v, ts[0]
        memo = self.st.ghost.get(("type", id(v)))
        k = memo[1] if memo is not None else self.decide(len(ts))
        if memo is None:
            self.st.ghost[("type", id(v))] = (v, k)     # keeps v alive, so its id stays unique
        key = {"int": "int", "float": "float", "np.float64": "np"}[ts[k].name]
        return Num(v.t, frozenset({key})), ts[k]

    # ------------------------------------------------------------------ truth / force
    def force(self, v):
        if isinstance(v, Phi):
            i = self.choose([g for g, _ in v.alts])
            return self.force(v.alts[i][1])
        if isinstance(v, Havoc):
            raise HavocRead(v)
        if isinstance(v, Lazy):
            return v.make(self)
        return v

    def truth(self, v):
        """Python bool or z3 Bool."""
        if isinstance(v, Phi):
            ts = [(g, self.truth(x)) for g, x in v.alts]
            return z3.simplify(z_or([z_and([g, zb(t)]) for g, t in ts]))
        v = self.force(v)
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if v is None:
            return False
        if isinstance(v, Num):
            return self.cmp_num(v, Num(0, INT), "!=")
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, SStr):
            raise Unsupported("truth of an opaque string")
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HList):
                n = self.seq_len(v)
                return self.cmp_num(n, Num(0, INT), "!=")
            if isinstance(o, HDict):
                gs = [g for g, _ in o.ent.values()]
                return z3.simplify(z_or(gs)) if gs else False
            if isinstance(o, HInst):
                m, _ = o.cls.lookup("__bool__")
                if m is None:
                    m, _ = o.cls.lookup("__len__")
                if m is None:
                    return True
                return self.truth(self.call(BoundMethod(m, v), [], {}))
            if isinstance(o, HArr):
                if len(o.data) == 1 and isinstance(o.data[0], Num):
                    return self.truth(o.data[0])
                raise Unsupported("truth of array")
        return True

    def test(self, v):
        return self.branch(self.truth(v))

    # ------------------------------------------------------------------ exceptions
    def raise_py(self, clsname, msg=""):
        cls = self.lib.EXC[clsname]
        raise PyRaise(self.alloc(HInst(cls, {"args": (msg,)})), clsname)

    # ------------------------------------------------------------------ sequences
    def seq_len(self, v):
        if isinstance(v, (tuple, str)):
            return Num(len(v), INT)
        if isinstance(v, SymSeq):
            return Num(v.n, INT)
        if isinstance(v, GuardedIter):
            n = Num(0, INT)
            for g, _ in v.items:
                n = self.binop_num("+", n, self.num(True if z3.is_true(g) else g))
            return n
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HList):
                n = Poly.const(len(o.items))
                if o.pre is not None:
                    n = n + o.pre.n
                return Num(n, INT)
            if isinstance(o, HDict):
                n = Num(0, INT)
                for g, _ in o.ent.values():
                    n = self.binop_num("+", n, self.num(True if z3.is_true(g) else g))
                return n
            if isinstance(o, HArr):
                return Num(len(o.data), INT)
            if isinstance(o, HInst) and o.cls is self.lib.SYMARR:
                return Num(o.fields["seq"].n, INT)
            if isinstance(o, HInst):
                m, _ = o.cls.lookup("__len__")
                if m is not None:
                    return self.call(BoundMethod(m, v), [], {})
        if isinstance(v, SStr):
            if isinstance(v, texts.SText):
                return texts.length(self, v)
            raise Unsupported("length of an opaque string")
        self.raise_py("TypeError", "len()")

    def iterate(self, v):
        """Concrete list of elements, or a SymSeq."""
        v = self.force(v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SymSeq):
            return self.maybe_concrete(v)
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, HList):
                if o.pre is None:
                    return list(o.items)
                return self.maybe_concrete(self.list_view(o))
            if isinstance(o, HDict):
                if any(not z3.is_true(g) for g, _ in o.ent.values()):
                    return GuardedIter([(g, k) for k, (g, _) in o.ent.items()])
                return list(o.ent.keys())
            if isinstance(o, HArr):
                return [self.arr_elem(x) for x in o.data]
            if isinstance(o, HInst) and o.cls is self.lib.SYMARR:
                return self.maybe_concrete(o.fields["seq"])
            if isinstance(o, HInst):
                m, _ = o.cls.lookup("__iter__")
                if m is not None:
                    return self.iterate(self.call(BoundMethod(m, v), [], {}))
            if isinstance(o, HFile):
                return self.lib.file_lines(self, o)
        if isinstance(v, GuardedIter):
            return v
        if v is None or isinstance(v, Num):
            self.raise_py("TypeError", "object is not iterable")
        raise Unsupported(f"iteration over {v!r}")

    def maybe_concrete(self, s):
        if isinstance(s.tag, guarded.GuardTag):
            return GuardedIter(list(s.tag.rows))
        n = self.norm(s.n)
        if n.is_const():
            return [s.get(self, Poly.const(i)) for i in range(int(n.const_value()))]
        return s

    def list_view(self, o):
        if not o.items:
            return o.pre
        if isinstance(o.pre.tag, guarded.GuardTag):
            return guarded.seq(self, guarded.rows_of(o))
        pre, items = o.pre, o.items

        def get(I, idx):
            d = idx - pre.n
            if d.is_const():
                k = int(d.const_value())
                if k >= 0:
                    return items[k]
                return pre.get(I, idx)
            if I.implied(compare(d, "<", I.st.positive)):
                return pre.get(I, idx)
            if I.branch(compare(d, "<", I.st.positive)):
                return pre.get(I, idx)
            for k in range(len(items) - 1):
                if I.branch(compare(d - Poly.const(k), "==", I.st.positive)):
                    return items[k]
            return items[-1]

        return SymSeq(pre.n + Poly.const(len(items)), get, pre.tag)

    def arr_elem(self, x):
        return x if isinstance(x, Num) else (self.new_arr(x) if isinstance(x, tuple) else x)

    def index_of(self, v):
        n = self.num(v)
        if n is None:
            self.raise_py("TypeError", "indices must be integers")
        return n

    def getitem(self, obj, key, node=None):
        obj = self.force(obj)
        if isinstance(key, Phi):
            key = self.force(key)
        if isinstance(obj, Ref) and isinstance(self.get(obj), HDict):
            return self.dict_get(obj, key)
        if isinstance(obj, Ref) and isinstance(self.get(obj), HInst):
            m, _ = self.get(obj).cls.lookup("__getitem__")
            if m is not None:
                return self.call(BoundMethod(m, obj), [key], {})
            self.raise_py("TypeError", "object is not subscriptable")
        if isinstance(key, Slice):
            return self.get_slice(obj, key)
        if isinstance(obj, Ref) and isinstance(self.get(obj), HArr):
            return self.lib.arr_index(self, obj, key)
        if obj is None or isinstance(obj, (Num, bool)):
            self.raise_py("TypeError", "object is not subscriptable")
        if isinstance(obj, Opaque):
            return Opaque(obj.name + "[]")
        i = self.index_of(key)
        if isinstance(obj, Ref):
            o = self.get(obj)
            if isinstance(o, HList) and o.pre is None:
                obj = o.items
            elif isinstance(o, HList):
                obj = self.list_view(o)
            else:
                raise Unsupported("subscript")
        if isinstance(obj, (tuple, str)):
            if i.const is not None:
                k = int(i.const)
                if -len(obj) <= k < len(obj):
                    return obj[k]
                self.raise_py("IndexError", "index out of range")
            for k in range(len(obj)):
                if self.branch(self.cmp_num(i, Num(k, INT), "==")):
                    return obj[k]
            for k in range(-len(obj), 0):
                if self.branch(self.cmp_num(i, Num(k, INT), "==")):
                    return obj[k]
            self.raise_py("IndexError", "index out of range")
        if isinstance(obj, SymSeq):
            n = Num(obj.n, INT)
            if i.const is not None and i.const < 0:
                j = self.binop_num("+", n, i)
                if not self.branch(self.cmp_num(j, Num(0, INT), ">=")):
                    self.raise_py("IndexError", "index out of range")
                return obj.get(self, self.norm(j.t))
            if i.const is None and not self.implied(self.cmp_num(i, Num(0, INT), ">=")):
                if not self.branch(self.cmp_num(i, Num(0, INT), ">=")):
                    j = self.binop_num("+", n, i)
                    if not self.branch(self.cmp_num(j, Num(0, INT), ">=")):
                        self.raise_py("IndexError", "index out of range")
                    return obj.get(self, self.norm(j.t))
            if not self.branch(self.cmp_num(i, n, "<")):
                self.raise_py("IndexError", "index out of range")
            return obj.get(self, self.norm(i.t))
        raise Unsupported(f"subscript of {obj!r}")

    def get_slice(self, obj, sl):
        if isinstance(obj, Ref) and isinstance(self.get(obj), HArr):
            return self.lib.arr_index(self, obj, sl)

        def cidx(x):
            if x is None:
                return None
            n = self.num(self.force(x))
            if n is None:
                raise Unsupported("slice index")
            return n

        a, b, c = cidx(sl.a), cidx(sl.b), cidx(sl.c)
        if c is not None and not (c.const == 1 or c.const == -1):
            raise Unsupported("slice step")
        if isinstance(obj, texts.SText) and c is None:
            return texts.slice_(self, obj, a, b)
        if isinstance(obj, SStr):
            raise Unsupported("slice of opaque string")
        kind = None
        if isinstance(obj, Ref):
            o = self.get(obj)
            kind = o.kind
            if o.pre is None:
                seq = o.items
            else:
                seq = self.list_view(o)
        else:
            seq = obj
        if isinstance(seq, (tuple, str)):
            if all(x is None or x.const is not None for x in (a, b)):
                r = seq[
                    None if a is None else int(a.const): None if b is None else int(b.const): None if c is None else int(c.const)
                ]
                return self.new_list(r, kind) if kind else r
            raise Unsupported("symbolic slice of a concrete sequence")
        if isinstance(seq, SymSeq):
            if c is not None and c.const == -1:
                raise Unsupported("reversed slice")
            lo = Poly.const(0) if a is None else a.t
            if a is not None:
                if a.const is not None and a.const < 0:
                    lo = seq.n + a.t
                    if not self.branch(compare(self.norm(lo), ">=", self.st.positive)):
                        lo = Poly.const(0)
                else:
                    if not self.branch(compare(self.norm(lo), ">=", self.st.positive)):
                        raise Unsupported("negative slice start")
                    if not self.branch(compare(self.norm(lo - seq.n), "<=", self.st.positive)):
                        return self.new_list(())
            hi = seq.n
            if b is not None:
                if b.const is not None and b.const < 0:
                    hi = seq.n + b.t
                    if not self.branch(compare(self.norm(hi - lo), ">=", self.st.positive)):
                        return self.new_list(())
                else:
                    hi = b.t
                    if not self.branch(compare(self.norm(hi - seq.n), "<=", self.st.positive)):
                        hi = seq.n
                    if not self.branch(compare(self.norm(hi - lo), ">=", self.st.positive)):
                        return self.new_list(())
            n = self.norm(hi - lo)
            g = seq.get
            tag = seq.tag
            if lo.is_zero() and n == seq.n:
                return self.alloc(HList((), seq, "list"))
            t2 = tag.sliced(lo) if hasattr(tag, "sliced") else None
            return self.alloc(HList((), SymSeq(n, lambda I, k: g(I, I.norm(k + lo)), t2), "list"))
        raise Unsupported("slice")

    def setitem(self, obj, key, val):
        obj = self.force(obj)
        key = self.force(key)
        if not isinstance(obj, Ref):
            self.raise_py("TypeError", "item assignment")
        o = self.get(obj)
        if isinstance(o, HDict):
            k = self.dict_key(key)
            ent = dict(o.ent)
            ent[k] = (TRUE, val)
            self.put(obj, HDict(ent, o.frozen, o.tag))
            return
        if isinstance(o, HList):
            i = self.index_of(key)
            if o.pre is not None:
                d = self.norm(i.t - o.pre.n) if not (i.const is not None and i.const < 0) else self.norm(i.t + Poly.const(len(o.items)))
                if not d.is_const() or not (0 <= d.const_value() < len(o.items)):
                    raise Unsupported("item assignment in a symbolic sequence")
                k = int(d.const_value())
            else:
                if i.const is None:
                    raise Unsupported("symbolic index assignment")
                k = int(i.const)
                if not -len(o.items) <= k < len(o.items):
                    self.raise_py("IndexError", "assignment index")
            it = list(o.items)
            it[k] = val
            self.put(obj, HList(tuple(it), o.pre, o.kind, o.frozen, o.ghost))
            return
        if isinstance(o, HArr):
            i = self.index_of(key)
            it = list(o.data)
            it[int(i.const)] = self.num(val)
            self.put(obj, HArr(tuple(it)))
            return
        if isinstance(o, HInst):
            m, _ = o.cls.lookup("__setitem__")
            if m is not None:
                self.call(BoundMethod(m, obj), [key, val], {})
                return
        raise Unsupported("item assignment")

    def dict_key(self, key):
        key = self.force(key)
        if isinstance(key, Num):
            if key.const is None:
                raise Unsupported("symbolic dict key")
            return int(key.const) if key.const.denominator == 1 else key.const
        if isinstance(key, SStr):
            raise Unsupported("opaque dict key")
        if isinstance(key, (str, bool, type(None), tuple, ClassVal)):
            return key
        raise Unsupported("dict key")

    def dict_get(self, ref, key, default=MISSING):
        o = self.get(ref)
        if isinstance(key, SStr):
            return self.dict_get_sym(o, key, default)
        k = self.dict_key(key)
        if k not in o.ent:
            if default is not MISSING:
                return default
            self.raise_py("KeyError", str(k))
        g, v = o.ent[k]
        if z3.is_true(g) or self.implied(g):
            return v
        if default is not MISSING and self.merge:
            return self.merge_values([(g, v), (z_not(g), default)])
        if self.branch(g):
            return v
        if default is not MISSING:
            return default
        self.raise_py("KeyError", str(k))

    def dict_get_sym(self, o, key, default):
        for k, (g, v) in o.ent.items():
            if isinstance(k, str):
                c = z_and([g, self.eq(key, k)])
                if self.branch(c):
                    return v
        if default is not MISSING:
            return default
        self.raise_py("KeyError", "symbolic key")

    # ------------------------------------------------------------------ equality / comparison
    def eq(self, a, b):
        if isinstance(a, Phi) or isinstance(b, Phi):
            if isinstance(a, Phi):
                return z3.simplify(z_or([z_and([g, zb(self.eq(x, b))]) for g, x in a.alts]))
            return self.eq(b, a)
        a, b = self.force(a), self.force(b)
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return a if b else z_not(a)
            return a == b
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return self.cmp_num(na, nb, "==")
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_term(a) == self.str_term(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.all_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Ref) and isinstance(self.get(a), HInst):
            m, _ = self.get(a).cls.lookup("__eq__")
            if m is not None:
                return self.call(BoundMethod(m, a), [b], {})
        if isinstance(b, Ref) and isinstance(self.get(b), HInst):
            m, _ = self.get(b).cls.lookup("__eq__")
            if m is not None:
                return self.call(BoundMethod(m, b), [a], {})
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            oa, ob = self.get(a), self.get(b)
            if isinstance(oa, HList) and isinstance(ob, HList):
                if oa.pre is None and ob.pre is None:
                    if oa.kind != ob.kind or len(oa.items) != len(ob.items):
                        return False
                    return self.all_([self.eq(x, y) for x, y in zip(oa.items, ob.items)])
                e = ob if ob.pre is None and not ob.items else oa if oa.pre is None and not oa.items else None
                if e is not None:
                    other = a if e is ob else b
                    return self.cmp_num(self.seq_len(other), Num(0, INT), "==")
                raise Unsupported("comparison of symbolic lists")
            if isinstance(oa, HDict) and isinstance(ob, HDict):
                raise Unsupported("dict comparison")
            return False
        if any(isinstance(x, Ref) and (isinstance(self.get(x), HArr) or isinstance(self.get(x), HInst) and self.get(x).cls in self.lib.ARRAYS) for x in (a, b)) and a is not None and b is not None:
            raise Unsupported("array comparison")
        if isinstance(a, (ClassVal, ModuleVal)) or isinstance(b, (ClassVal, ModuleVal)):
            return a is b
        if a is None or b is None:
            return a is b
        return False

    def all_(self, cs):
        if all(isinstance(c, bool) for c in cs):
            return all(cs)
        cs = [zb(c) for c in cs]
        if any(z3.is_false(c) for c in cs):
            return False
        return z_and(cs)

    def str_term(self, s):
        if isinstance(s, SStr):
            return s.z
        return self.lib.str_const(self, s)

    def compare(self, op, a, b):
        if op in ("==", "!=", "<", "<=", ">", ">="):
            r = self.lib.arr_compare(self, op, a, b)
            if r is not None:
                return r
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            a2 = self.force(a) if not isinstance(a, Phi) else a
            if isinstance(a2, Ref) and isinstance(self.get(a2), HInst):
                m, _ = self.get(a2).cls.lookup("__ne__")
                if m is not None:
                    return self.call(BoundMethod(m, a2), [b], {})
            r = self.eq(a2, b)
            r = self.truth(r)
            return (not r) if isinstance(r, bool) else z_not(r)
        if op in ("is", "is not"):
            r = self.is_(a, b)
            if op == "is":
                return r
            return (not r) if isinstance(r, bool) else z_not(r)
        if op in ("in", "not in"):
            r = self.contains(a, b)
            if op == "in":
                return r
            return (not r) if isinstance(r, bool) else z_not(r)
        a, b = self.force(a), self.force(b)
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return self.cmp_num(na, nb, op)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, Ref) and isinstance(self.get(a), HArr) or isinstance(b, Ref) and isinstance(self.get(b), HArr):
            raise Unsupported("array comparison")
        if isinstance(a, Ref) and isinstance(self.get(a), HInst):
            d = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            m, _ = self.get(a).cls.lookup(d)
            if m is not None:
                return self.call(BoundMethod(m, a), [b], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison of an opaque value")
        self.raise_py("TypeError", f"'{op}' not supported")

    def is_(self, a, b):
        if isinstance(a, Phi):
            return z3.simplify(z_or([z_and([g, zb(self.is_(x, b))]) for g, x in a.alts]))
        if isinstance(b, Phi):
            return self.is_(b, a)
        a, b = self.force(a), self.force(b)
        if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
            if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
                return self.eq(a, b)
            return False
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, ClassVal) or isinstance(b, ClassVal):
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            raise Unsupported("type identity")
        return a is b

    def contains(self, x, coll):
        coll = self.force(coll)
        if isinstance(coll, Ref):
            o = self.get(coll)
            if isinstance(o, HDict):
                if isinstance(x, Phi):
                    return z3.simplify(z_or([z_and([g, zb(self.contains(y, coll))]) for g, y in x.alts]))
                if isinstance(x, SStr):
                    return z3.simplify(z_or([z_and([g, zb(self.eq(x, k))]) for k, (g, _) in o.ent.items() if isinstance(k, str)]))
                k = self.dict_key(x)
                if k not in o.ent:
                    return False
                g = o.ent[k][0]
                return True if z3.is_true(g) else g
            if isinstance(o, HList) and o.pre is None:
                coll = o.items
            elif isinstance(o, HInst):
                m, _ = o.cls.lookup("__contains__")
                if m is None:
                    self.raise_py("TypeError", "not a container")
                return self.call(BoundMethod(m, coll), [x], {})
            else:
                raise Unsupported("membership")
        if isinstance(coll, str):
            if isinstance(x, str):
                return x in coll
            raise Unsupported("substring test")
        if isinstance(coll, tuple):
            if isinstance(x, Phi):
                return z3.simplify(z_or([z_and([g, zb(self.contains(y, coll))]) for g, y in x.alts]))
            rs = [self.eq(x, y) for y in coll]
            if all(isinstance(r, bool) for r in rs):
                return any(rs)
            return z3.simplify(z_or([zb(r) for r in rs]))
        if isinstance(coll, texts.SText):
            return texts.contains(self, coll, self.force(x))
        if isinstance(coll, SStr):
            raise Unsupported("substring test")
        if isinstance(coll, Opaque):
            raise Unsupported("membership in an opaque value")
        self.raise_py("TypeError", "argument is not iterable")

    # ------------------------------------------------------------------ binary operators
    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return self.binop_num(op, na, nb)
        oa = self.get(a) if isinstance(a, Ref) else None
        ob = self.get(b) if isinstance(b, Ref) else None
        d = DUNDER[op]
        if isinstance(oa, HInst):
            m, _ = oa.cls.lookup(f"__{d}__")
            if m is not None:
                return self.call(BoundMethod(m, a), [b], {})
        if isinstance(ob, HInst):
            m, _ = ob.cls.lookup(f"__r{d}__")
            if m is not None:
                return self.call(BoundMethod(m, b), [a], {})
        if isinstance(oa, HInst) or isinstance(ob, HInst):
            self.raise_py("TypeError", f"unsupported operand for {op}")
        if isinstance(oa, HArr) or isinstance(ob, HArr):
            return self.lib.arr_binop(self, op, a, b)
        if (isinstance(oa, HList) or isinstance(a, tuple)) and nb is not None or (
            isinstance(ob, HList) or isinstance(b, tuple)
        ) and na is not None:
            n = nb if nb is not None else na
            n2, ty = self.resolve_type(n)
            if ty is self.lib.T["np.float64"]:
                return self.lib.arr_binop(self, op, self.lib.to_arr(self, a) if nb is not None else n2, self.lib.to_arr(self, b) if na is not None else n2)
            if op == "*" and n2.const is not None and ty is self.lib.T["int"]:
                s = a if nb is not None else b
                if isinstance(s, tuple):
                    return s * int(n2.const)
                return self.new_list(self.get(s).items * int(n2.const))
            self.raise_py("TypeError", f"unsupported operand for {op}")
        if op == "+":
            if isinstance(oa, HList) and isinstance(ob, HList):
                if oa.kind != ob.kind:
                    self.raise_py("TypeError", "concatenation")
                if ob.pre is None:
                    return self.alloc(HList(oa.items + ob.items, oa.pre, oa.kind))
                if oa.pre is None and not oa.items:
                    return self.alloc(HList(ob.items, ob.pre, ob.kind))
                return self.lib.concat_seqs(self, oa, ob)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.str_("cat")
        if op == "*" and isinstance(a, str) and nb is not None and nb.const is not None:
            return a * int(nb.const)
        if op == "*" and isinstance(a, (str, SStr)) and nb is not None:
            return self.str_("rep")
        if op == "/" and isinstance(a, Opaque):
            return Opaque(a.name)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("operator on an opaque value")
        self.raise_py("TypeError", f"unsupported operand for {op}")

    def unop(self, op, v):
        if op == "not":
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z_not(t)
        v = self.force(v)
        n = self.num(v)
        if n is not None:
            return n if op == "+" else Num(-n.t, n.ty)
        if isinstance(v, Ref) and isinstance(self.get(v), HArr):
            return self.lib.arr_binop(self, "*", v, Num(-1, INT)) if op == "-" else v
        if isinstance(v, Ref) and isinstance(self.get(v), HInst):
            m, _ = self.get(v).cls.lookup("__neg__" if op == "-" else "__pos__")
            if m is not None:
                return self.call(BoundMethod(m, v), [], {})
        if op == "~":
            return self.lib.invert(self, v)
        self.raise_py("TypeError", f"bad operand for unary {op}")

    # ------------------------------------------------------------------ attributes
    def getattr(self, obj, name):
        obj = self.force(obj)
        if isinstance(obj, Ref):
            o = self.get(obj)
            if isinstance(o, HInst):
                m, _ = o.cls.lookup(name)
                if isinstance(m, PropVal):
                    return self.call(m.fget, [obj], {})
                if name in o.fields:
                    v = o.fields[name]
                    if isinstance(v, Lazy):
                        v = v.make(self)
                        f = dict(self.get(obj).fields)
                        f[name] = v
                        self.st.heap[obj.id] = HInst(o.cls, f, o.frozen, o.tag)
                    return v
                if name == "__class__":
                    return o.cls
                if name == "__dict__":
                    return self.new_dict({k: x for k, x in o.fields.items() if k != "__ghost__"})
                if m is not None:
                    if isinstance(m, FuncVal):
                        if m.kind == "classmethod":
                            return BoundMethod(m, o.cls)
                        if m.kind == "staticmethod":
                            return m
                        return BoundMethod(m, obj)
                    if isinstance(m, Builtin):
                        return BoundMethod(m, obj)
                    return m
                if o.tag == "opaque-fields":
                    raise Unsupported(f"attribute {name} of an abstract object")
                self.raise_py("AttributeError", f"{o.cls.name}.{name}")
            r = self.lib.obj_attr(self, obj, o, name)
            if r is not None:
                return r
            self.raise_py("AttributeError", name)
        if isinstance(obj, ModuleVal):
            if name in obj.attrs:
                return obj.attrs[name]
            if obj.frame is not None:
                f = self.get(Ref(obj.frame))
                if name in f.vars:
                    return f.vars[name]
                self.raise_py("AttributeError", f"module {obj.name}.{name}")
            if obj.opaque:
                return Opaque(f"{obj.name}.{name}")
            raise Unsupported(f"{obj.name}.{name} is not modelled")
        if isinstance(obj, ClassVal):
            m, c = obj.lookup(name)
            if m is not None:
                if isinstance(m, FuncVal) and m.kind == "classmethod":
                    return BoundMethod(m, obj)
                return m
            if name == "__name__":
                return obj.name
            r = self.lib.class_attr(self, obj, name)
            if r is not None:
                return r
            self.raise_py("AttributeError", f"{obj.name}.{name}")
        if isinstance(obj, SuperVal):
            mro = obj.cls.mro()
            for c in self._mro_after(obj):
                if name in c.members:
                    m = c.members[name]
                    if isinstance(m, PropVal):
                        return self.call(m.fget, [obj.self_], {})
                    if isinstance(m, FuncVal) and m.kind == "staticmethod":
                        return m
                    return BoundMethod(m, obj.self_)
            if name == "__init__":
                return Builtin("object.__init__", lambda I, a, k: None)
            if name == "__str__":
                return Builtin("object.__str__", lambda I, a, k: I.str_("repr"))
            self.raise_py("AttributeError", name)
        if obj is None:
            self.raise_py("AttributeError", f"'NoneType' object has no attribute {name}")
        if isinstance(obj, Opaque):
            return Opaque(f"{obj.name}.{name}")
        r = self.lib.value_attr(self, obj, name)
        if r is not None:
            return r
        self.raise_py("AttributeError", name)

    def _mro_after(self, sv):
        o = self.get(sv.self_) if isinstance(sv.self_, Ref) else None
        start = o.cls if isinstance(o, HInst) else sv.self_
        mro = start.mro()
        i = mro.index(sv.cls)
        return mro[i + 1:]

    def setattr(self, obj, name, val):
        obj = self.force(obj)
        if isinstance(obj, Ref):
            o = self.get(obj)
            if isinstance(o, HInst):
                m, _ = o.cls.lookup(name)
                if isinstance(m, PropVal):
                    if m.fset is None:
                        self.raise_py("AttributeError", f"can't set {name}")
                    self.call(m.fset, [obj, val], {})
                    return
                f = dict(o.fields)
                f[name] = val
                self.put(obj, HInst(o.cls, f, o.frozen, o.tag))
                return
        if isinstance(obj, (ClassVal, ModuleVal, FuncVal, BoundMethod)):
            raise Unsupported("attribute assignment on a class or module")
        if isinstance(obj, Opaque):
            return
        self.raise_py("AttributeError", f"cannot set {name}")

    # ------------------------------------------------------------------ calls
    def call(self, fn, args, kwargs, node=None):
        fn = self.force(fn)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported("call depth exceeded (recursion without contract)")
        try:
            return self._call(fn, args, kwargs)
        finally:
            self.depth -= 1

    def _call(self, fn, args, kwargs):
        if isinstance(fn, BoundMethod):
            if isinstance(fn.func, Builtin):
                return fn.func.fn(self, [fn.self_] + list(args), kwargs)
            return self._call(fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, FuncVal):
            return self.call_function(fn, args, kwargs)
        if isinstance(fn, Builtin):
            return fn.fn(self, list(args), kwargs)
        if isinstance(fn, BMeth):
            return self.lib.method(self, fn.obj, fn.name, list(args), kwargs)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, Opaque):
            return self.lib.call_opaque(self, fn, args, kwargs)
        if isinstance(fn, Ref) and isinstance(self.get(fn), HInst):
            m, _ = self.get(fn).cls.lookup("__call__")
            if m is not None:
                return self._call(m, [fn] + list(args), kwargs)
        self.raise_py("TypeError", "object is not callable")

    def instantiate(self, cls, args, kwargs):
        if cls.builtin:
            return self.lib.construct(self, cls, list(args), kwargs)
        ref = self.alloc(HInst(cls, {}))
        c = self.contracts.get(f"{cls.module}.{cls.qualname}") if cls.module else None
        init, owner = cls.lookup("__init__")
        if isinstance(init, FuncVal):
            self.call(init, [ref] + list(args), kwargs)
        elif isinstance(init, Builtin):
            init.fn(self, [ref] + list(args), kwargs)
        elif args or kwargs:
            if self.lib.is_exception(cls):
                f = dict(self.get(ref).fields)
                f["args"] = tuple(args)
                self.put(ref, HInst(cls, f))
            else:
                self.raise_py("TypeError", f"{cls.name}() takes no arguments")
        return ref

    def bind_args(self, fn, args, kwargs):
        a = fn.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vars_ = {}
        args = list(args)
        kwargs = dict(kwargs)
        if len(args) > len(names) and a.vararg is None:
            self.raise_py("TypeError", f"{fn.qualname}: too many positional arguments")
        for n, v in zip(names, args):
            vars_[n] = v
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(args[len(names):])
        kwonly = [p.arg for p in a.kwonlyargs]
        for k in list(kwargs):
            if k in names or k in kwonly:
                if k in vars_:
                    self.raise_py("TypeError", f"{fn.qualname}: multiple values for {k}")
                vars_[k] = kwargs.pop(k)
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = self.new_dict(kwargs)
        elif kwargs:
            self.raise_py("TypeError", f"{fn.qualname}: unexpected keyword {list(kwargs)[0]}")
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            vars_.setdefault(n, d)
        for n, d in fn.kwdefaults.items():
            vars_.setdefault(n, d)
        for n in names + kwonly:
            if n not in vars_:
                self.raise_py("TypeError", f"{fn.qualname}: missing argument {n}")
        return vars_

    def call_function(self, fn, args, kwargs):
        full = f"{fn.module}.{fn.qualname}"
        c = self.contracts.get(full)
        if c is not None and full not in self.bypass:
            self.assumed.add(full)
            vars_ = self.bind_args(fn, args, kwargs)
            return c.apply(self, vars_)
        self.bypass.discard(full)
        return self.run_function(fn, args, kwargs)

    def run_function(self, fn, args, kwargs):
        full = f"{fn.module}.{fn.qualname}"
        self.executed.add(full)
        vars_ = self.bind_args(fn, args, kwargs)
        frame = self.alloc(HFrame(vars_, fn.closure, full))
        self.call_stack.append(CallName(full))
        self.call_stack[-1].frame = frame
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, frame)
            if _is_generator(fn.node):
                raise Unsupported("generator function")
            if self.merge:
                def body():
                    self.exec_block(fn.node.body, frame)
                    raise ReturnEx(None)

                outs = self.explore(body)
                try:
                    return self.join(outs)
                except ReturnEx as e:
                    return e.v
            try:
                self.exec_block(fn.node.body, frame)
            except ReturnEx as e:
                return e.v
            return None
        finally:
            self.call_stack.pop()

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        for s in stmts:
            self.exec(s, fr)

    def exec(self, s, fr):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        self.node = s
        m(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = OPS.get(type(s.op))
        if op is None:
            raise Unsupported("augmented operator")
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
            rhs = self.eval(s.value, fr)
            cur = self.force(cur)
            if op == "+" and isinstance(cur, Ref) and isinstance(self.get(cur), HList):
                self.lib.method(self, cur, "extend", [rhs], {})
                return
            self.assign(s.target, self.binop(op, cur, rhs), fr)
        elif isinstance(s.target, ast.Attribute):
            obj = self.eval(s.target.value, fr)
            cur = self.force(self.getattr(obj, s.target.attr))
            rhs = self.eval(s.value, fr)
            if op == "+" and isinstance(cur, Ref) and isinstance(self.get(cur), HList):
                self.lib.method(self, cur, "extend", [rhs], {})
                return
            self.setattr(obj, s.target.attr, self.binop(op, cur, rhs))
        elif isinstance(s.target, ast.Subscript):
            obj = self.eval(s.target.value, fr)
            key = self.eval_index(s.target.slice, fr)
            cur = self.getitem(obj, key)
            self.setitem(obj, key, self.binop(op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported("augmented target")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.set_var(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts)
            for x, y in zip(t.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, fr)
            self.setitem(obj, self.eval_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        it = self.iterate(v)
        if isinstance(it, (SymSeq, GuardedIter)):
            raise Unsupported("unpacking a symbolic sequence")
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            i = star[0]
            k = len(elts) - i - 1
            if len(it) < len(elts) - 1:
                self.raise_py("ValueError", "not enough values to unpack")
            return it[:i] + [self.new_list(it[i: len(it) - k])] + it[len(it) - k:]
        if len(it) != len(elts):
            self.raise_py("ValueError", "unpack")
        return it

    def set_var(self, name, v, fr):
        f = self.get(fr)
        scope = f
        ref = fr
        g = f.vars.get("__global__")
        if g and name in g:
            ref = self.module_frame(fr)
        nl = f.vars.get("__nonlocal__")
        if nl and name in nl:
            p = f.parent
            while p is not None and name not in self.get(Ref(p)).vars:
                p = self.get(Ref(p)).parent
            if p is None:
                raise Unsupported("nonlocal")
            ref = Ref(p)
        if ref.id < self.shared_below:
            self.shared_write()
        o = self.get(ref)
        vs = dict(o.vars)
        vs[name] = v
        self.st.heap[ref.id] = HFrame(vs, o.parent, o.qualname)

    def module_frame(self, fr):
        r = fr
        while self.get(r).parent is not None:
            r = Ref(self.get(r).parent)
        return r

    def lookup(self, name, fr):
        f = self.get(fr)
        loc = f.vars.get("__locals__")
        r = fr
        while True:
            o = self.get(r)
            if name in o.vars:
                return o.vars[name]
            if o.parent is None:
                break
            r = Ref(o.parent)
        b = self.lib.BUILTINS.get(name)
        if b is not None:
            return b
        if name in self.lib.EXC:
            return self.lib.EXC[name]
        self.raise_py("NameError", name)

    def x_Global(self, s, fr):
        f = self.get(fr)
        vs = dict(f.vars)
        vs["__global__"] = frozenset(vs.get("__global__", frozenset())) | set(s.names)
        self.st.heap[fr.id] = HFrame(vs, f.parent, f.qualname)

    def x_Nonlocal(self, s, fr):
        f = self.get(fr)
        vs = dict(f.vars)
        vs["__nonlocal__"] = frozenset(vs.get("__nonlocal__", frozenset())) | set(s.names)
        self.st.heap[fr.id] = HFrame(vs, f.parent, f.qualname)

    def x_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        raise BreakEx()

    def x_Continue(self, s, fr):
        raise ContinueEx()

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.get(fr)
                vs = dict(f.vars)
                vs.pop(t.id, None)
                self.st.heap[fr.id] = HFrame(vs, f.parent, f.qualname)
            elif isinstance(t, ast.Subscript):
                obj = self.force(self.eval(t.value, fr))
                k = self.eval_index(t.slice, fr)
                o = self.get(obj)
                if isinstance(o, HDict):
                    ent = dict(o.ent)
                    ent.pop(self.dict_key(k), None)
                    self.put(obj, HDict(ent, o.frozen, o.tag))
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def x_Assert(self, s, fr):
        if not self.test(self.eval(s.test, fr)):
            self.raise_py("AssertionError", "assert")

    def x_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if isinstance(c, z3.BoolRef):
            cs = z3.simplify(c)
            if z3.is_true(cs):
                c = True
            elif z3.is_false(cs):
                c = False
        if isinstance(c, bool):
            self.exec_block(s.body if c else s.orelse, fr)
            return
        if self.merge:
            outs = []
            for cond, body in ((c, s.body), (z_not(c), s.orelse)):
                def run(cond=cond, body=body):
                    if not self.feasible(cond):
                        raise PathDead()
                    self.assume(cond, True)
                    self.exec_block(body, fr)

                outs += self.explore(run)
            self.join(outs)
            return
        if self.branch(c):
            self.exec_block(s.body, fr)
        else:
            self.exec_block(s.orelse, fr)

    def x_While(self, s, fr):
        for w in self.whiles:
            if w.match(self, s, fr):
                self.assumed_loops.add(f"{self.where()}: {w.name}")
                w.run(self, s, fr)
                return
        n = 0
        while True:
            if not self.test(self.eval(s.test, fr)):
                self.exec_block(s.orelse, fr)
                return
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
            n += 1
            if n > 400:
                raise Unsupported("while loop without invariant")

    def x_For(self, s, fr):
        it = self.iterate(self.eval(s.iter, fr))
        if isinstance(it, SymSeq):
            from . import loops

            loops.for_loop(self, s, fr, it)
            return
        if isinstance(it, GuardedIter):
            for g, k in it.items:
                if z3.is_true(g):
                    self.assign(s.target, k, fr)
                    try:
                        self.exec_block(s.body, fr)
                    except BreakEx:
                        return
                    except ContinueEx:
                        pass
                    continue
                outs = []

                def run_in(g=g, k=k):
                    if not (guarded.maybe(self, g) if self.guarded else self.feasible(g)):
                        raise PathDead()
                    self.assume(g, True)
                    self.assign(s.target, k, fr)
                    try:
                        self.exec_block(s.body, fr)
                    except ContinueEx:
                        pass

                def run_out(g=g):
                    if not (guarded.maybe(self, z_not(g)) if self.guarded else self.feasible(z_not(g))):
                        raise PathDead()
                    self.assume(z_not(g), True)

                outs = guarded.outside(self, g, self.explore(run_in)) + self.explore(run_out)
                try:
                    self.join(outs)
                except BreakEx:
                    return
            self.exec_block(s.orelse, fr)
            return
        for w in self.whiles:
            if hasattr(w, "match_for") and w.match_for(self, s, fr, it):
                self.assumed_loops.add(f"{self.where()}: {w.name}")
                w.run_for(self, s, fr, it)
                return
        for x in it:
            self.assign(s.target, x, fr)
            try:
                self.exec_block(s.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(s.orelse, fr)

    def x_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported("re-raise")
        e = self.force(self.eval(s.exc, fr))
        if isinstance(e, ClassVal):
            e = self.instantiate(e, [], {})
        raise PyRaise(e, s)

    def x_Try(self, s, fr):
        def handle(e):
            cls = self.get(e.exc).cls
            for h in s.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = self.force(self.eval(h.type, fr))
                    ts = t if isinstance(t, tuple) else (t,)
                    ok = any(cls.issub(x) for x in ts)
                if ok:
                    if h.name:
                        self.set_var(h.name, e.exc, fr)
                    self.exec_block(h.body, fr)
                    return True
            return False

        try:
            try:
                self.exec_block(s.body, fr)
            except PyRaise as e:
                if not handle(e):
                    raise
            else:
                self.exec_block(s.orelse, fr)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, fr)

    def x_With(self, s, fr):
        for it in s.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.exec_block(s.body, fr)

    def x_FunctionDef(self, s, fr):
        fn = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            fn = self.decorate(d, fn, fr)
        self.set_var(s.name, fn, fr)

    def decorate(self, d, fn, fr):
        if isinstance(d, ast.Name) and d.id == "property":
            return PropVal(fn, None)
        if isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod"):
            fn.kind = d.id
            return fn
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            p = self.lookup(d.value.id, fr)
            return PropVal(p.fget, fn) if d.attr == "setter" else PropVal(fn, p.fset)
        raise Unsupported("decorator")

    def make_func(self, s, fr):
        f = self.get(fr)
        mod = self.get(self.module_frame(fr)).vars["__name__"]
        base = f.vars.get("__qual__", "")
        qn = f.qualname[len(mod) + 1:] + ".<locals>." if f.qualname.startswith(mod + ".") and not base else ""
        name = getattr(s, "name", "<lambda>")
        closure = fr.id
        if "__qual__" in f.vars:      # class body: methods close over the enclosing frame
            closure = f.parent
        return FuncVal(
            s, mod, (base + "." + name) if base else qn + name, closure,
            [self.eval(d, fr) for d in s.args.defaults],
            {p.arg: self.eval(d, fr) for p, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None},
        )

    def x_ClassDef(self, s, fr):
        f = self.get(fr)
        mod = self.get(self.module_frame(fr)).vars["__name__"]
        bases = []
        for b in s.bases:
            v = self.force(self.eval(b, fr))
            bases.append(v if isinstance(v, ClassVal) else ClassVal("opaque", [], {}))
        outer = f.vars.get("__qual__")
        qn = (outer + "." if outer else "") + s.name
        if not outer and f.qualname.startswith(mod + "."):
            qn = f.qualname[len(mod) + 1:] + ".<locals>." + s.name
        cf = self.alloc(HFrame({"__qual__": qn}, fr.id, f"{mod}.{qn}"))
        self.exec_block(s.body, cf)
        members = {k: v for k, v in self.get(cf).vars.items() if not k.startswith("__qual")}
        cls = ClassVal(s.name, bases, members, mod, qn)
        for v in members.values():
            for g in (v, getattr(v, "fget", None), getattr(v, "fset", None)):
                if isinstance(g, FuncVal):
                    g.cls = cls
        if s.decorator_list:
            raise Unsupported("class decorator")
        self.set_var(s.name, cls, fr)

    def x_Import(self, s, fr):
        for a in s.names:
            m = self.import_module(a.name)
            self.set_var(a.asname or a.name.split(".")[0], self.import_module(a.name.split(".")[0]) if not a.asname else m, fr)

    def x_ImportFrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            mod = PKG + ("." + mod if mod else "")
        for a in s.names:
            full = f"{mod}.{a.name}"
            if self.is_repo_module(full):
                v = self.import_module(full)
            else:
                v = self.getattr(self.import_module(mod), a.name)
            self.set_var(a.asname or a.name, v, fr)

    def is_repo_module(self, name):
        if not name.startswith(PKG + "."):
            return False
        return os.path.exists(os.path.join(self.repo, *name.split(".")) + ".py")

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if self.is_repo_module(name):
            return self.load(name)
        m = self.lib.std_module(self, name)
        self.modules[name] = m
        return m

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split(".")) + ".py"
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.asts[name] = tree
        fr = self.alloc(HFrame({"__name__": name}, None, name))
        mod = ModuleVal(name, {}, fr.id)
        self.modules[name] = mod
        stack = self.call_stack
        self.call_stack = [name]
        self.exec_block(tree.body, fr)
        self.call_stack = stack
        return mod

    def member(self, dotted):
        """FuncVal / ClassVal / PropVal for 'module:Class.method' style names, or None."""
        mod, path = dotted.split(":")
        m = self.load(f"{PKG}.{mod}")
        cur = self.get(Ref(m.frame)).vars.get(path.split(".")[0])
        for p in path.split(".")[1:]:
            if cur is None:
                return None
            cur = cur.lookup(p)[0]
        return cur

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return Num(v, INT)
        if isinstance(v, float):
            return Num(Fraction(repr(v)) if abs(v) < 1e300 else Fraction(v), FLT)
        if v is Ellipsis:
            return Opaque("...")
        raise Unsupported("constant")

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if isinstance(v, Havoc):
            if v.resolve is not None:
                return v.resolve(self)
            raise HavocRead(v)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(
                self.eval(s.lower, fr) if s.lower else None,
                self.eval(s.upper, fr) if s.upper else None,
                self.eval(s.step, fr) if s.step else None,
            )
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Subscript(self, e, fr):
        v = self.eval(e.value, fr)
        if isinstance(v, (ClassVal, Opaque)):
            return v
        return self.getitem(v, self.eval_index(e.slice, fr), e)

    def e_BinOp(self, e, fr):
        op = OPS.get(type(e.op))
        if op is None:
            l = self.eval(e.left, fr)
            r = self.eval(e.right, fr)
            return self.lib.bitop(self, type(e.op).__name__, l, r)
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(op, a, b)

    def e_UnaryOp(self, e, fr):
        op = {ast.Not: "not", ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)]
        return self.unop(op, self.eval(e.operand, fr))

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        return self._boolop(is_and, list(e.values), fr)

    def _boolop(self, is_and, vals, fr):
        v = self.eval(vals[0], fr)
        if len(vals) == 1:
            return v
        t = self.truth(v)
        if isinstance(t, z3.BoolRef):
            ts = z3.simplify(t)
            if z3.is_true(ts):
                t = True
            elif z3.is_false(ts):
                t = False
        if isinstance(t, bool):
            if t == is_and:
                return self._boolop(is_and, vals[1:], fr)
            return v
        go = t if is_and else z_not(t)

        def run():
            if not self.feasible(go):
                raise PathDead()
            self.assume(go, True)
            return self._boolop(is_and, vals[1:], fr)

        outs = self.explore(run)
        if not outs:
            return (not is_and)
        ok = all(o.kind == "normal" and isinstance(o.value, (bool, z3.BoolRef)) for o in outs) and isinstance(v, (bool, z3.BoolRef))
        heap0 = self.st.heap
        if ok:
            ok = all(all(o.st.heap.get(i) is x or isinstance(x, HFrame) for i, x in heap0.items()) for o in outs)
        if ok:
            res = z_or([z_and([o.guard, zb(o.value)]) for o in outs])
            for o in outs:
                for i, x in o.st.heap.items():
                    self.st.heap.setdefault(i, x)
                for f in o.facts:
                    self.assume(z3.Implies(o.guard, f))
                for k, r in o.st.rules.items():
                    self.st.rules.setdefault(k, r)
                for k, r in o.st.ghost.items():
                    self.st.ghost.setdefault(k, r)
            return z_and([t, res]) if is_and else z_or([t, res])
        if self.branch(go):
            return self._boolop(is_and, vals[1:], fr)
        return v

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = []
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            if type(op) in CMP:
                c = self.compare(CMP[type(op)], left, right)
            else:
                c = self.compare(
                    {ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(op)], left, right
                )
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            if c is False:
                return False
            res.append(c)
            left = right
        return self.all_(res)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if isinstance(c, z3.BoolRef) and self.merge:
            outs = []
            for cond, ex in ((c, e.body), (z_not(c), e.orelse)):
                def run(cond=cond, ex=ex):
                    if not self.feasible(cond):
                        raise PathDead()
                    self.assume(cond, True)
                    return self.eval(ex, fr)

                outs += self.explore(run)
            return self.join(outs)
        return self.eval(e.body if self.branch(c) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.seq_items(e.elts, fr))

    def e_List(self, e, fr):
        return self.new_list(self.seq_items(e.elts, fr))

    def seq_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.eval(x.value, fr))
                if isinstance(it, (SymSeq, GuardedIter)):
                    raise Unsupported("starred symbolic sequence")
                out += it
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Set(self, e, fr):
        return self.new_list(self.seq_items(e.elts, fr), "set")

    def e_Dict(self, e, fr):
        ent = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.get(self.force(self.eval(v, fr)))
                if not isinstance(src, HDict):
                    raise Unsupported("** of non-dict")
                for kk, (g, x) in src.ent.items():
                    if kk in ent and not z3.is_true(g):
                        ent[kk] = (z_or([ent[kk][0], g]), self.merge_values([(g, x), (z_not(g), ent[kk][1])]))
                    else:
                        ent[kk] = (g, x)
            else:
                ent[self.dict_key(self.eval(k, fr))] = (TRUE, self.eval(v, fr))
        return self.alloc(HDict(ent))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.get(fr)
            qual = f.qualname
            cls = self._enclosing_class(fr)
            first = next(iter(f.vars.values()))
            return SuperVal(cls, first)
        fn = self.eval(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, fr))
                if isinstance(it, (SymSeq, GuardedIter)):
                    raise Unsupported("starred symbolic argument")
                args += it
            else:
                if isinstance(a, ast.GeneratorExp):
                    args.append(self.e_GeneratorExp(a, fr))
                else:
                    args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                src = self.get(self.force(self.eval(k.value, fr)))
                for kk, (g, x) in src.ent.items():
                    if not z3.is_true(g):
                        raise Unsupported("guarded ** argument")
                    kwargs[kk] = x
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(fn, args, kwargs, e)

    def _enclosing_class(self, fr):
        qn = self.get(fr).qualname
        # the class whose method this frame executes
        fn = self.get(fr)
        for m in self.modules.values():
            if m.frame is None:
                continue
            if qn.startswith(m.name + "."):
                rest = qn[len(m.name) + 1:].split(".<locals>.")[0].split(".")[:-1]
                cur = self.get(Ref(m.frame)).vars.get(rest[0]) if rest else None
                for p in rest[1:]:
                    cur = cur.members.get(p)
                if isinstance(cur, ClassVal):
                    return cur
        raise Unsupported("super()")

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                if isinstance(x, str) and v.format_spec is None and v.conversion == -1:
                    parts.append(x)
                elif isinstance(x, Num) and x.const is not None and x.ty == INT and v.format_spec is None:
                    parts.append(str(int(x.const)))
                else:
                    spec = None if v.format_spec is None else self.eval(v.format_spec, fr)
                    parts.append(("sym", x, v.conversion, spec))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return self.lib.fstring(self, parts)

    def e_FormattedValue(self, e, fr):
        return self.str_("fmt")

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_ListComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.eval(e.elt, f))
        if isinstance(r, SymSeq):
            return self.alloc(HList((), r))
        if isinstance(r, list):
            return self.new_list(r)
        return r

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.eval(e.elt, f))
        if isinstance(r, SymSeq):
            return r
        if isinstance(r, list):
            return self.new_list(r)
        return r

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda f: self.eval(e.elt, f))
        if isinstance(r, list):
            return self.new_list(r, "set")
        raise Unsupported("symbolic set")

    def e_DictComp(self, e, fr):
        g = e.generators[0]
        if len(e.generators) == 1 and isinstance(g.target, ast.Name) and isinstance(e.key, ast.Name) and e.key.id == g.target.id:
            it = self.iterate(self.eval(g.iter, fr))
            if isinstance(it, SymSeq) and hasattr(it.tag, "distinct"):     # equal elements give the same entry
                it = it.tag.distinct(self)
            if isinstance(it, GuardedIter):
                cf = self.alloc(HFrame({}, fr.id, self.get(fr).qualname))
                ent = {}
                for gd, x in it.items:
                    self.assign(g.target, x, cf)
                    c = z_and([gd] + [zb(self.truth(self.eval(t, cf))) for t in g.ifs])
                    if not z3.is_false(z3.simplify(c)):
                        ent[self.dict_key(self.eval(e.key, cf))] = (c, self.eval(e.value, cf))
                return self.alloc(HDict(ent))
        r = self.comp(e, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f)))
        if isinstance(r, list):
            return self.new_dict({self.dict_key(k): v for k, v in r})
        return self.lib.dict_from(self, r)

    def comp(self, e, fr, elt):
        cf = self.alloc(HFrame({}, fr.id, self.get(fr).qualname))
        gens = e.generators
        out = []

        def run(i):
            if i == len(gens):
                out.append(elt(cf))
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, cf if i else fr))
            if isinstance(it, SymSeq):
                if len(gens) != 1:
                    raise Unsupported("nested symbolic comprehension")
                return self.lib.sym_comp(self, it, g, cf, elt)
            if isinstance(it, GuardedIter) and self.guarded and len(gens) == 1:
                return guarded.comprehension(self, it.items, g, cf, elt)
            if self.guarded and self.merge and len(gens) == 1 and isinstance(it, (list, tuple)):
                return guarded.comprehension(self, [(z3.BoolVal(True), x) for x in it], g, cf, elt)
            if isinstance(it, GuardedIter):
                for gd, x in it.items:
                    self.assign(g.target, x, cf)
                    cs = [self.truth(self.eval(c, cf)) for c in g.ifs]
                    if any(c is False or isinstance(c, z3.BoolRef) and z3.is_false(z3.simplify(c)) for c in cs):
                        continue
                    if self.branch(gd) and all(self.branch(c) if isinstance(c, z3.BoolRef) else c for c in cs):
                        if run(i + 1) is not None:
                            raise Unsupported("nested symbolic comprehension")
                return None
            for x in it:
                self.assign(g.target, x, cf)
                if all(self.test(self.eval(c, cf)) for c in g.ifs):
                    r = run(i + 1)
                    if r is not None:
                        raise Unsupported("nested symbolic comprehension")
            return None

        r = run(0)
        return out if r is None else r


class HavocRead(Exception):
    def __init__(self, h):
        self.h = h


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class GuardedIter:
    def __init__(self, items):
        self.items = items


class PropVal:
    def __init__(self, fget, fset):
        self.fget, self.fset = fget, fset


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class TypeOf:
    pass


class Lazy:
    """A field computed on first access (deterministically)."""

    def __init__(self, fn):
        self.fn = fn

    def make(self, I):
        return self.fn(I)


CAREFUL = [0]      # raised when a run had to be repeated because a query ignored its limits


def quick_check(s, ms, rlimit):
    """A query for pruning: limits which do not depend on the load, and a kill switch.

    z3 may ignore its limits in algebraic-number computations.  The timer then ends this process; the driver repeats
    the unit more carefully.
    """
    import signal

    c = CAREFUL[0]
    s.set("timeout", 5 * ms)
    s.set("rlimit", rlimit if not c else rlimit // 3)
    if c:
        s.set("random_seed", c)
    if c >= 2:
        s.set("smt.arith.nl.nra", False)
    signal.setitimer(signal.ITIMER_PROF, 8.0)
    try:
        return s.check()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _const_ite(e):
    if z3.is_int_value(e) or z3.is_rational_value(e):
        return True
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        _, p, q = e.children()
        return _const_ite(p) and _const_ite(q)
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return _const_ite(e.children()[0])
    return False


def _is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False
