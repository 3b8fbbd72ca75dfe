"""C12: extrusion extent, maximum velocity and summary."""

from .blocks import *  # noqa: F401,F403
from .blocks import *
from pyvc.unit import Unit


def matrix(I, v):
    v = I.force(v)
    rows = [I.iterate(r) for r in I.iterate(v)]
    return [[num(I, x) for x in r] for r in rows]


def u_extent(own, asked):
    def fn(I):
        bt = BlocksBase(I)
        sim = simulation(I, own, blocklist=bt.list(I))
        kw = {} if asked is None else {"output_unit_system": asked}
        before = dict(I.get(sim).fields)
        e, r = raised(I, lambda: call(I, sim, "extrusion_extent", **kw))
        unchanged(I, sim, before)
        k = some_index(I, bt)
        bt.block(I, k.t)
        ex = bt.ext(k.z())
        if e is None:
            I.assume(ex)
        instantiate(I, bt, k.t)
        if e is not None:
            I.oblige(z_not(ex), "an error is raised only if no block extrudes")
            return
        f = Num(FACTORS[asked or own], FLT)
        m = matrix(I, r)
        I.oblige(TRUE if len(m) == 2 and all(len(x) == 3 for x in m) else FALSE, "the extent has a lower and an upper corner")
        for j, ax in enumerate("xyz"):
            for fs, what in ((bt.a, "start"), (bt.b, "end")):
                v = mul(I, f, Num(Poly.atom(fs[j](k.z())), FLT))
                I.oblige(z3.Implies(ex, z_and([cmp(I, m[0][j], "<=", v), cmp(I, v, "<=", m[1][j])])), f"{what} points of extruding moves lie inside the extent ({ax})")
            for row, what in ((0, "lower"), (1, "upper")):
                c = []
                for i in bt.seen(I):
                    z = iz(i)
                    for fs in (bt.a, bt.b):
                        c.append(z_and([bt.inr(z), bt.ext(z), eqn(I, m[row][j], mul(I, f, Num(Poly.atom(fs[j](z)), FLT)))]))
                I.oblige(z_or(c), f"the {what} bound is reached by an extruding move ({ax})")
    return fn


class BlockMaxVel:
    """extrusion_block_max_vel of an extruding block: four non-negative axis speeds; None otherwise."""

    target = P + "planner_block.planner_block.extrusion_block_max_vel"
    mv = [ifun("mv_" + c) for c in "xyze"]

    def apply(self, I, v):
        k = block_number(I, I.force(v["self"]))
        if k is None:
            raise Unsupported("block of another list")
        if not I.branch(zb(I.truth(I.getattr(v["self"], "is_extruding")))):
            return None
        z = iz(k)
        for g in self.mv:
            I.assume(g(z) >= 0)
        return I.new_arr(tuple(Num(Poly.atom(g(z)), NPF) for g in self.mv))


def u_maxvel(own, asked):
    def fn(I):
        bt = BlocksBase(I)
        sim = simulation(I, own, blocklist=bt.list(I))
        kw = {} if asked is None else {"output_unit_system": asked}
        before = dict(I.get(sim).fields)
        e, r = raised(I, lambda: call(I, sim, "extrusion_max_vel", **kw))
        unchanged(I, sim, before)
        k = some_index(I, bt)
        bt.block(I, k.t)
        ex = bt.ext(k.z())
        if e is None:
            I.assume(ex)
        instantiate(I, bt, k.t)
        if e is not None:
            I.oblige(z_not(ex), "an error is raised only if no block extrudes")
            return
        f = Num(FACTORS[asked or own], FLT)
        g = num(I, r)

        def speed(z):
            return mul(I, f, Num(I.sqrt(I.norm(ssum(I, [sq(I, Num(Poly.atom(m(z)), NPF)) for m in BlockMaxVel.mv[:3]]).t), "norm"), NPF))

        I.oblige(z3.Implies(ex, cmp(I, speed(k.z()), "<=", g)), "no extruding move is faster than the maximum")
        I.oblige(z_or([z_and([bt.inr(iz(i)), bt.ext(iz(i)), eqn(I, g, speed(iz(i)))]) for i in bt.seen(I)]), "the maximum is reached by an extruding move")
    return fn


def u_block(m, extruding):
    def fn(I):
        vb = [[real(I, f"vb{i}_{c}", ANYNUM) for c in "xyze"] for i in range(m)]
        ve = [[real(I, f"ve{i}_{c}", ANYNUM) for c in "xyze"] for i in range(m)]
        segs = [I.alloc(HInst(cls(I, "utils:segment"), {"vel_begin": vec(I, "velocity", b), "vel_end": vec(I, "velocity", e)}, True, "opaque-fields")) for b, e in zip(vb, ve)]
        blk = I.alloc(HInst(cls(I, "planner_block:planner_block"), {"segments": I.alloc(HList(tuple(segs), None, "list", True)), "is_extruding": extruding}, True, "opaque-fields"))
        r = I.force(call(I, blk, "extrusion_block_max_vel"))
        if not extruding:
            I.oblige(TRUE if r is None else FALSE, "no maximum velocity without extrusion")
            return
        g = [num(I, x) for x in I.iterate(r)]
        I.oblige(TRUE if len(g) == 4 else FALSE, "four axis velocities")
        for j, ax in enumerate("xyze"):
            vs = [x[j] for x in vb + ve]
            for x in vs:
                I.oblige(z_and([cmp(I, x, "<=", g[j]), cmp(I, I.binop_num("-", ZERO, x), "<=", g[j])]), f"no phase is faster along {ax}")
            I.oblige(z_or([z_or([eqn(I, g[j], x), eqn(I, g[j], I.binop_num("-", ZERO, x))]) for x in vs]), f"the maximum is a phase's speed along {ax}")
    return fn


class Extent:
    target = P + "gcode_interpreter.simulation.extrusion_extent"

    def apply(self, I, v):
        if I.force(v.get("output_unit_system")) is not None:
            raise Unsupported("summary in another unit system")
        return I.new_arr(tuple(tuple(Num(Poly.atom(z3.Real(f"extent_{w}_{c}")), NPF) for c in "xyz") for w in ("min", "max")))


class MaxVel:
    target = P + "gcode_interpreter.simulation.extrusion_max_vel"

    def apply(self, I, v):
        if I.force(v.get("output_unit_system")) is not None:
            raise Unsupported("summary in another unit system")
        return Num(Poly.atom(z3.Real("maxvel")), NPF)


class SegBlocks(BlocksBase):
    """Blocks with segments off(k) .. off(k+1)-1, at least one each."""

    def __init__(self, I, least=0, tr=None):
        super().__init__(I, least)
        self.tr = tr or Traj(I)
        self.off_ = z3.Function("off", z3.IntSort(), z3.IntSort())

    def off(self, I, k):
        k = I.norm(k)
        return Poly.const(0) if k.is_zero() else Poly.atom(self.off_(iz(k)))

    def facts(self, I, k, z):
        I.assume(z3.Implies(z == 0, self.off_(z) == 0))
        I.assume(z3.Implies(self.inr(z), z3.And(self.off_(z) >= 0, self.off_(z) < self.off_(z + 1), self.off_(z + 1) <= self.tr.n.z())))
        I.assume(z3.Implies(z + 1 == self.n.z(), self.off_(z + 1) == self.tr.n.z()))

    def fields(self, I, k, z):
        d = super().fields(I, k, z)
        a = self.off(I, k)
        b = self.off(I, I.norm(k + Poly.const(1)))
        d["segments"] = I.alloc(HList((), SymSeq(I.norm(b - a), lambda J, i: self.tr.seg(J, J.norm(a + i)), None), "list", True))
        return d


def u_summary(I):
    bt = SegBlocks(I, 1)
    sim = simulation(I, "SImm", blocklist=bt.list(I))
    call(I, sim, "save_summary", filepath=I.str_("path"))
    calls = [(n, a, k) for n, a, k in I.st.ghost.get("library_calls", ()) if "dump" in n]
    I.oblige(TRUE if len(calls) == 1 else FALSE, "one summary is written")
    if len(calls) != 1:
        return
    _, a, kw = calls[0]
    d = I.force(kw["data"] if "data" in kw else a[0])

    def get(key):
        o = I.get(d) if isinstance(d, Ref) else None
        if not isinstance(o, HDict) or key not in o.ent:
            I.oblige(FALSE, f"the summary contains {key}")
            raise PathDead()
        return num(I, I.getitem(d, key))

    for w in ("min", "max"):
        for c in "xyz":
            I.oblige(eqn(I, get(f"{c}_{w}"), Num(Poly.atom(z3.Real(f"extent_{w}_{c}")), FLT)), f"the summary states the extent {c}_{w}")
    I.oblige(eqn(I, get("max_extrusion_travel_velocity"), Num(Poly.atom(z3.Real("maxvel")), FLT)), "the summary states the maximum extrusion velocity")
    last = I.norm(bt.tr.n.t - Poly.const(1))
    I.oblige(eqn(I, get("t_end"), bt.tr.fun(bt.tr.te, last)), "the summary states the end time of the last segment")


def units():
    out = [Unit("extrusion_extent", u_extent("SImm", None)), Unit("extrusion_max_vel", u_maxvel("SImm", None), contracts=[BlockMaxVel()])]
    for m in range(1, 5):
        out.append(Unit(f"extrusion_block_max_vel of {m} phases", u_block(m, True), merge=True))
    out.append(Unit("extrusion_block_max_vel without extrusion", u_block(2, False)))
    out.append(Unit("save_summary", u_summary, contracts=[Extent(), MaxVel()]))
    return out
