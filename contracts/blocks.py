"""A symbolic block list: n planner blocks with uninterpreted positions and flags."""

from .traj import *  # noqa: F401,F403
from .traj import *
from pyvc.lib import ConcatTag, EnumTag, FilterTag, filter_member, instantiate_extremum


class BlocksBase:
    """Tag of the block list; block k is an object whose fields are functions of k."""

    def __init__(self, I, least=0):
        self.n = I.int_("nblocks")
        I.assume(self.n.z() >= least)
        self.a = [ifun("A_" + c) for c in "xyze"]
        self.b = [ifun("B_" + c) for c in "xyze"]
        self.ext = z3.Function("extruding", z3.IntSort(), z3.BoolSort())
        self.sliced_ = None

    def sliced(self, lo):
        return SliceTag(self, lo)

    def inr(self, z):
        return z3.And(z >= 0, z < self.n.z())

    def seen(self, I):
        return I.st.ghost.get(("blocks", id(self)), ())

    def state(self, I, fs, z):
        return mkstate(I, vec(I, "position", [Num(Poly.atom(f(z)), FLT) for f in fs]), None)

    def facts(self, I, k, z):
        pass

    def fields(self, I, k, z):
        return {"state_A": self.state(I, self.a, z), "state_B": self.state(I, self.b, z), "is_extruding": self.ext(z)}

    def block(self, I, k):
        k = I.norm(k)
        key = ("blockobj", id(self), k.key())
        r = I.st.ghost.get(key)
        if r is not None and r.id in I.st.heap:
            return r
        z = iz(k)
        I.st.ghost[("blocks", id(self))] = self.seen(I) + (k,)
        self.facts(I, k, z)
        r = I.alloc(HInst(cls(I, "planner_block:planner_block"), {}, False, "opaque-fields"))
        for nm, v in self.fields(I, k, z).items():
            I.setattr(r, nm, v)
        o = I.get(r)
        I.st.heap[r.id] = HInst(o.cls, o.fields, True, o.tag)
        I.st.ghost[key] = r
        I.st.ghost[("blockno", r.id)] = k
        return r

    def seq(self):
        return SymSeq(self.n.t, lambda J, k: self.block(J, k), self)

    def list(self, I):
        return I.alloc(HList((), self.seq(), "list", True))


def block_number(I, ref):
    return I.st.ghost.get(("blockno", ref.id))


def views(I, tag, base, k):
    """Positions, in a sequence with this tag, of the elements made from element k of the base list."""
    if tag is base:
        return [k]
    if isinstance(tag, ConcatTag):
        return views(I, tag.a.tag, base, k) + [I.norm(tag.a.n + r) for r in views(I, tag.b.tag, base, k)]
    if isinstance(tag, FilterTag):
        out = []
        for i in views(I, tag.src.tag, base, k):
            z = SymSeq(None, None, tag)
            c = zb(tag.cond(I, i))
            r = tag.rank(iz(i))
            for s in I.st.ghost.values():
                if isinstance(s, SymSeq) and s.tag is tag:
                    z = s
            I.assume(z3.Implies(c, z3.And(r >= 0, r < iz(z.n), tag.sigma(r) == iz(i))))
            out.append(Poly.atom(r))
        return out
    if isinstance(tag, SliceTag):
        raise Unsupported("extremum of a part of the list")
    if isinstance(tag, MapTag):
        return views(I, tag.base, base, k)
    raise Unsupported("extremum of something else than the block list")


def extrema(I):
    return [v for k, v in I.st.ghost.items() if isinstance(k, tuple) and k[0] == "ext"]


def instantiate(I, base, k):
    """Element k of the base list enters every extremum and every selection computed so far."""
    for k_, v in list(I.st.ghost.items()):
        if isinstance(k_, tuple) and k_[0] == "filter":
            views(I, v.tag, base, k)
        if isinstance(k_, tuple) and k_[0] == "ext":
            for r in views(I, v.seq.tag, base, k):
                instantiate_extremum(I, v, r)


def some_index(I, base, name="k"):
    k = I.int_(name)
    I.assume(base.inr(k.z()))
    return k
