"""A symbolic trajectory: what planning and correction guarantee (C01, C04, C07), as a precondition of its users.

Segments are numbered 0..n-1; segment i is an object whose fields are uninterpreted functions of i.  Facts about
segments are stated for every index which the execution mentions.
"""

import z3

from .common import *  # noqa: F401,F403
from .common import (
    ANYNUM, FALSE, FLT, INT, NPF, TRUE, ZERO, HArr, HInst, HList, Num, Phi, Poly, PyRaise, Ref, SStr, SymSeq, attr, call, cls, cmp, comps, same_obj_fields,
    compare, const, eqn, mkstate, mul, num, real, settings, sq, ssum, sub, vec, z_and, z_not, z_or, zb,
)
from pyvc.lib import RangeTag
from pyvc.lib import MapTag
from pyvc.loops import LoopSpec, base_tag
from pyvc.values import HDict, HFile, Opaque, PathDead, Unsupported


class SliceTag(MapTag):
    def __init__(self, base, lo):
        self.base, self.lo = base, lo

    def sliced(self, lo):
        return SliceTag(self, lo)


class TrajTag:
    def __init__(self, traj):
        self.traj = traj

    def sliced(self, lo):
        return SliceTag(self, lo)


def offset(tag):
    """Index shift of a view of the trajectory."""
    lo = Poly.const(0)
    while hasattr(tag, "base"):
        if isinstance(tag, SliceTag):
            lo = lo + tag.lo
        tag = tag.base
    return lo


def iz(p):
    """Integer term of an index."""
    if p.is_const():
        return z3.IntVal(int(p.const_value()))
    e = p.to_z3()
    return e if e.is_int() else z3.ToInt(e)


def ifun(name):
    return z3.Function(name, z3.IntSort(), z3.RealSort())


class Traj:
    """n segments (n >= 1)."""

    def __init__(self, I, ty=FLT, contiguous=True, moving=True):
        self.n = I.int_("nseg")
        I.assume(self.n.z() >= 1)
        self.ty = ty
        self.tb, self.te = ifun("tb"), ifun("te")
        self.f = {k: [ifun(f"{k}_{c}") for c in "xyze"] for k in ("pb", "pe", "vb", "ve")}
        self.moving = moving
        self.contiguous = contiguous
        self.tag = TrajTag(self)

    def fun(self, f, i):
        return Num(Poly.atom(f(iz(i))), self.ty)

    def see(self, I, i):
        """Facts about segment i (and about it and the segments mentioned before)."""
        key = ("traj", id(self))
        seen = I.st.ghost.get(key, ())
        i = I.norm(i)
        if any(j == i for j in seen):
            return
        I.st.ghost[key] = seen + (i,)
        z = iz(i)
        inr = z3.And(z >= 0, z < self.n.z())
        I.assume(z3.Implies(inr, z3.And(self.tb(z) >= 0, self.tb(z) <= self.te(z))))
        I.assume(z3.Implies(z == 0, self.tb(z) == 0))
        for j in seen:
            w = iz(j)
            jr = z3.And(w >= 0, w < self.n.z())
            d = I.norm(i - j)
            if d.is_const() and d.const_value() > 0:
                I.assume(z3.Implies(z3.And(inr, jr), self.te(w) <= self.tb(z)))
            elif d.is_const():
                I.assume(z3.Implies(z3.And(inr, jr), self.te(z) <= self.tb(w)))
            else:
                I.assume(z3.Implies(z3.And(inr, jr, z < w), self.te(z) <= self.tb(w)))
                I.assume(z3.Implies(z3.And(inr, jr, w < z), self.te(w) <= self.tb(z)))
            if self.contiguous:
                for a, b, aa in ((z, w, i), (w, z, j)):
                    if d.is_const() and I.norm(aa + Poly.const(1) - (j if aa is i else i)).is_zero() or not d.is_const():
                        I.assume(z3.Implies(z3.And(inr, jr, a + 1 == b), z3.And(self.te(a) == self.tb(b), *[
                            p(a) == q(b) for p, q in zip(self.f["pe"], self.f["pb"])])))

    def seg(self, I, i):
        i = I.norm(i)
        self.see(I, i)
        key = ("segobj", id(self), i.key())
        r = I.st.ghost.get(key)
        if r is not None and r.id in I.st.heap:
            return r
        g = {k: [self.fun(f, i) for f in fs] for k, fs in self.f.items()}

        def v(kind, cs):
            return I.alloc(HInst(cls(I, "utils:" + kind), dict(zip("xyze", cs)), True, "segment vector"))

        r = I.alloc(HInst(cls(I, "utils:segment"), {
            "t_begin": self.fun(self.tb, i), "t_end": self.fun(self.te, i), "pos_begin": v("position", g["pb"]), "pos_end": v("position", g["pe"]),
            "vel_begin": v("velocity", g["vb"]), "vel_end": v("velocity", g["ve"])}, True, ("seg", i)))
        I.st.ghost[key] = r
        return r

    def seq(self):
        return SymSeq(self.n.t, lambda J, i: self.seg(J, i), self.tag)

    def path(self, I):
        return I.alloc(HList((), self.seq(), "list", True))


def raised(I, thunk):
    """(exception class name or None, value)."""
    try:
        return None, thunk()
    except PyRaise as e:
        return I.get(e.exc).cls.name, None


class FirstHit(LoopSpec):
    """No segment passed so far contains t: the last one passed ends before t."""

    name = "every segment searched so far ends before t"

    def __init__(self, t):
        self.t = t

    def where(self, I, L):
        """(trajectory, index of the first segment searched) of a loop over its segments or over their indices."""
        if isinstance(base_tag(L.seq.tag), TrajTag):
            return base_tag(L.seq.tag).traj, offset(L.seq.tag)
        tr = I.st.ghost.get("tr")
        if isinstance(L.seq.tag, RangeTag) and tr is not None and I.norm(L.seq.tag.hi - tr.n.t).is_zero():
            return tr, L.seq.tag.lo
        return None

    def match(self, I, L):
        return self.where(I, L) is not None

    def fact(self, I, L, k):
        tr, start = self.where(I, L)
        i = I.norm(start + k - Poly.const(1))
        tr.see(I, i)
        return z3.Implies(compare(I.norm(k), ">", I.st.positive), cmp(I, tr.fun(tr.te, i), "<", self.t(I))) if not I.norm(k).is_const() else (
            TRUE if I.norm(k).is_zero() else cmp(I, tr.fun(tr.te, i), "<", self.t(I)))

    def havoc(self, I, L, k):
        I.assume(self.fact(I, L, k))

    def check(self, I, L, k):
        I.oblige(self.fact(I, L, k), "loop invariant: every segment searched so far ends before t")


class FindSegment:
    """find_current_segment(path, t, last_index): the first segment containing t, whatever last_index is."""

    target = "pyGCodeDecode.gcode_interpreter.find_current_segment"

    def apply(self, I, v):
        path, t = I.force(v["path"]), num(I, v["t"])
        keep = I.truth(v.get("keep_position", False)) is not False
        o = I.get(path) if isinstance(path, Ref) else None
        s = path if isinstance(path, SymSeq) else (o.pre if isinstance(o, HList) and not o.items else None)
        if s is None or not isinstance(s.tag, TrajTag):
            raise Unsupported("search in something else than the whole trajectory")
        tr = s.tag.traj
        li = I.force(v.get("last_index"))
        if li is not None:
            I.oblige(cmp(I, num(I, li), ">=", ZERO), "precondition of the segment search: last index is not negative")
        last = I.norm(tr.n.t - Poly.const(1))
        tr.see(I, last)
        tr.see(I, Poly.const(0))
        I.oblige(cmp(I, t, ">=", ZERO), "precondition of the segment search: time is not negative")
        if not I.branch(cmp(I, t, "<=", tr.fun(tr.te, last))):
            if keep:
                raise Unsupported("keep_position search behind the end")
            return (None, None)
        i = I.int_("hit")
        I.st.ghost["hit"] = (tr, i)
        I.assume(i.z() >= 0)
        I.assume(i.z() < tr.n.z())
        r = tr.seg(I, i.t)
        I.assume(cmp(I, tr.fun(tr.tb, i.t), "<=", t))
        I.assume(cmp(I, t, "<=", tr.fun(tr.te, i.t)))
        p = I.norm(i.t - Poly.const(1))
        tr.see(I, p)
        I.assume(z3.Implies(i.z() > 0, cmp(I, tr.fun(tr.te, p), "<", t)))
        return (r, i)


class BlockListTag:
    def __init__(self, tr):
        self.tr = tr


class Unpack:
    """unpack_blocklist(blocklist): the segments of all blocks, in order."""

    target = "pyGCodeDecode.gcode_interpreter.unpack_blocklist"

    def __init__(self, tr):
        self.tr = tr

    def apply(self, I, v):
        tr = self.tr(I)
        b = I.force(v["blocklist"])
        if not (isinstance(b, Ref) and b == tr.blocklist):
            raise Unsupported("unpacking of something else than the block list")
        return I.alloc(HList((), tr.seq(), "list"))


class Stub:
    """A callee whose effect does not matter here."""

    def __init__(self, target, fn=None):
        self.target = P + target
        self.fn = fn

    def apply(self, I, v):
        return self.fn(I, v) if self.fn else None


class GetDict:
    """setup.get_dict of an abstract setup object."""

    target = P + "gcode_interpreter.setup.get_dict"

    def apply(self, I, v):
        return I.get(v["self"]).fields["__dict"]


def init_stubs():
    """Everything simulation.__init__ calls besides the handling of names and units."""
    return [
        Stub("gcode_interpreter.simulation.check_initial_setup"),
        Stub("state_generator.generate_states", lambda I, v: I.new_list(())),
        Stub("gcode_interpreter.generate_planner_blocks", lambda I, v: I.new_list(())),
        Stub("gcode_interpreter.simulation.trajectory_self_correct"),
        Stub("gcode_interpreter.simulation.print_summary"), GetDict(),
    ]


def setup_obj(I, d=None):
    """A setup object whose dictionary names the printer and the firmware."""
    c = cls(I, "gcode_interpreter:setup")
    d = d or I.new_dict({"printer_name": "printer", "firmware": None})
    return I.alloc(HInst(c, {"__dict": d}, False, "opaque-fields"))


def simulation(I, unit="SImm", setup=None, **fields):
    """A simulation object: built by the real constructor around stubbed planning, then given the fields."""
    old = dict(I.contracts)
    for c in init_stubs():
        I.contracts[c.target] = c
    try:
        sim = I.instantiate(cls(I, "gcode_interpreter:simulation"), [], {
            "gcode_path": "x.gcode", "initial_machine_setup": setup_obj(I, setup), "output_unit_system": unit})
    finally:
        I.contracts = old
    for k, v in fields.items():
        I.setattr(sim, k, v)
    o = I.get(sim)
    # in mid-life it may have further attributes which its methods set
    I.st.heap[sim.id] = HInst(o.cls, o.fields, o.frozen, "opaque-fields")
    return sim


def unchanged(I, sim, before, allow=("last_index",)):
    """A query changes nothing in the simulation but the search hint."""
    after = I.get(sim).fields
    I.oblige(TRUE if all(I.same(after.get(k), v) for k, v in before.items() if k not in allow) else FALSE, "a query changes nothing in the simulation but the search hint")
    if set(after) - set(before):
        raise Unsupported("queries keep further state in the simulation")


def planned(I, tr, unit="SImm", **fields):
    """A simulation whose block list unpacks to the trajectory."""
    n = I.int_("nblocks")
    I.assume(n.z() >= 1)

    def block(J, k):
        raise Unsupported("block of an abstract block list")

    tr.blocklist = I.alloc(HList((), SymSeq(n.t, block, BlockListTag(tr)), "list", True))
    return simulation(I, unit, blocklist=tr.blocklist, **fields)


from fractions import Fraction  # noqa: E402

FACTORS = {"SI": Fraction(1, 1000), "SImm": Fraction(1), "inch": Fraction(10, 254)}
SYSTEMS = ("SI", "SImm", "inch")
