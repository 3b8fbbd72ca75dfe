"""C18: unsupported commands are counted."""

from pyvc.interp import GuardedIter
from pyvc.unit import Unit
from .states import *  # noqa: F401,F403
from .states import FALSE, INT, TRUE, UNSUPPORTED, ZERO, HDict, HInst, HList, LoopSpec, Num, Poly, Program, Ref, SymSeq, Unsupported, base_tag, cls, eqn, iz, num, z3, zb


class Bag:
    """Tag of the list of commands found in the first k lines: only how often each occurs is known."""

    def __init__(self, P, k):
        self.P, self.k = P, k

    def number(self, c):
        return self.P.found[c](iz(self.k))

    def count(self, I, x):
        if x in UNSUPPORTED:
            return Num(Poly.atom(self.number(x)), INT)
        if isinstance(x, str):
            return ZERO
        raise Unsupported("count of an opaque string")

    def distinct(self, I):
        return GuardedIter([(self.number(c) > 0, c) for c in UNSUPPORTED])

    def seq(self):
        n = Poly.const(0)
        for c in UNSUPPORTED:
            n = n + Poly.atom(self.number(c))

        def get(I, i):
            raise Unsupported("order of the found commands")

        return SymSeq(n, get, self)


class CountLoop(LoopSpec):
    name = "what was collected so far holds every unsupported command as often as lines contain it"

    def collected(self, I, L):
        import ast

        names = {x.id for st in L.stmt.body for x in ast.walk(st) if isinstance(x, ast.Name)}
        out = []
        r = L.frame
        while r is not None:
            o = I.get(r)
            if o.parent is None:
                break
            for nm, v in o.vars.items():
                if nm in names and isinstance(v, Ref):
                    h = I.st.heap.get(v.id)
                    if isinstance(h, HList) and not h.frozen and h.pre is None and not h.items and h.kind == "list" or isinstance(h, HDict) and not h.frozen and not h.ent:
                        out.append(v)
            r = Ref(o.parent)
        return out

    def match(self, I, L):
        return isinstance(base_tag(L.seq.tag), Program) and len(self.collected(I, L)) == 1

    def enter(self, I, L):
        L.data["c"] = self.collected(I, L)[0]
        L.touch(L.data["c"])

    def havoc(self, I, L, k):
        P, z = base_tag(L.seq.tag), iz(k)
        for c in UNSUPPORTED:
            I.assume(P.found[c](z) >= 0)
        r = L.data["c"]
        if isinstance(I.get(r), HList):
            I.st.heap[r.id] = HList((), Bag(P, k).seq(), "list")
        else:
            I.st.heap[r.id] = HDict({c: (P.found[c](z) > 0, Num(Poly.atom(P.found[c](z)), INT)) for c in UNSUPPORTED})

    def check(self, I, L, k):
        P, z = base_tag(L.seq.tag), iz(k)
        o = I.get(L.data["c"])
        if isinstance(o, HList):
            if o.pre is None or not isinstance(o.pre.tag, Bag):
                raise Unsupported("list of the found commands")
            for x in o.items:
                if not isinstance(x, str):
                    raise Unsupported("list of the found commands")
                I.oblige(TRUE if x in UNSUPPORTED else FALSE, "only unsupported commands are reported")
            for c in UNSUPPORTED:
                n = I.binop_num("+", o.pre.tag.count(I, c), Num(sum(x == c for x in o.items), INT))
                I.oblige(eqn(I, n, Num(Poly.atom(P.found[c](z)), INT)), "loop invariant: number of a command")
        else:
            check_counts(I, o, lambda c: P.found[c](z), "loop invariant: ")


def check_counts(I, o, number, w):
    for c, (g, v) in o.ent.items():
        if c not in UNSUPPORTED:
            I.oblige(z3.Not(g), w + "nothing but unsupported commands is reported")
            continue
        I.oblige(z3.Implies(g, eqn(I, num(I, v), Num(Poly.atom(number(c)), INT))), w + "number of lines with the command")
    for c in UNSUPPORTED:
        g = o.ent[c][0] if c in o.ent else z3.BoolVal(False)
        I.oblige(g == (number(c) > 0), w + "exactly the occurring commands are reported")


def u_counts(I):
    P = Program(I)
    z = z3.IntVal(0)
    for c in UNSUPPORTED:
        I.assume(P.found[c](z) == 0)
    I.assume(P.found[UNSUPPORTED[0]](P.n.z()) >= 0)
    r = I.force(I.call(cls(I, "state_generator:check_for_unsupported_commands"), [], {"line_dict_list": P.list(I)}))
    ok = isinstance(r, Ref) and isinstance(I.get(r), HDict)
    I.oblige(TRUE if ok else FALSE, "a dictionary is returned")
    if ok:
        check_counts(I, I.get(r), lambda c: P.found[c](P.n.z()), "")


def units():
    return [Unit("unsupported commands", u_counts, loops=[CountLoop()], merge=True, budget=20000, parts=1)]
