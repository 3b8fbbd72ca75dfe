"""Planning of the blocks (C04, C07): the block constructor and the loop which lines the blocks up."""

from fractions import Fraction as FR

import z3

from .move import *  # noqa: F401,F403
from .common import *  # noqa: F401,F403
from .common import (
    FALSE, FLT, INT, NPF, TRUE, ZERO, HInst, HList, Num, Phi, Poly, Ref, SymSeq, attr, call, cls, cmp, comps, eqn, mkstate, mul, num, real, settings,
    sq, ssum, sub, vec, z_and, z_not, z_or, zb,
)
from .junction import CLASSES, EXTRUDE, NONE, TRAVEL, moved
from .traj import Stub
from .move import seg_view, segment
from .chain import MD, ONE, Ends, MoveMaker2, abstract_segments, changed, reach_ok, velocity_of
from pyvc.loops import LoopSpec, base_tag
from pyvc.interp import Lazy
from pyvc.values import Havoc, HFrame, Unsupported

FIRMWARES = (None, "marlin_jd", "marlin_jerk", "klipper", "MKA")


def junction_stubs():
    """The junction classes by what C02 and C03 verify: velocity of the incoming move, a junction speed which is not negative."""
    def init(I, v):
        r = I.force(v["self"])
        B, A = I.force(v["state_B"]), I.force(v["state_A"])
        t = I.st.ghost.get(("target", B.id)) if isinstance(B, Ref) else None
        if t is None or t[0] != A:
            raise Unsupported("junction of other states")
        o = I.get(r)
        I.st.heap[r.id] = HInst(o.cls, {"state_A": A, "state_B": B}, False, "opaque-fields")

    def target(I, v):
        B = I.force(I.getattr(v["self"], "state_B"))
        return vec(I, "velocity", I.st.ghost[("target", B.id)][1])

    def speed(I, v):
        B = I.force(I.getattr(v["self"], "state_B"))
        s = real(I, "vjunction", NPF)
        I.assume(cmp(I, s, ">=", ZERO))
        if I.st.ghost[("target", B.id)][0] is None:
            I.assume(eqn(I, s, ZERO))
        return s

    out = [Stub("junction_handling.junction_handling.get_target_vel", target)]
    for c in CLASSES.values():
        out += [Stub(f"junction_handling.{c}.__init__", init), Stub(f"junction_handling.{c}.get_junction_vel", speed)]
    return out


class Step:
    """One state and the one before it (none for the first state)."""

    def __init__(self, I, first, pause):
        self.first = first
        self.acc, self.F, self.jerk = real(I, "acc"), real(I, "speed"), real(I, "jerk")
        I.assume(z_and([cmp(I, self.acc, ">", ZERO), cmp(I, self.F, ">", ZERO), cmp(I, self.jerk, ">=", ZERO)]))
        self.pa = [real(I, "a" + k) for k in "xyze"]
        self.kind = NONE if first else I.choose([I.bool_("travels"), I.bool_("extrudes"), TRUE])
        self.d = moved(I, self.kind, [real(I, "d" + k) for k in "xyze"])
        self.pb = [I.binop_num("+", x, y) for x, y in zip(self.pa, self.d)]
        self.A = None if first else mkstate(I, vec(I, "position", self.pa), settings(I, real(I, "accA"), real(I, "speedA"), real(I, "jerkA")))
        self.B = mkstate(I, vec(I, "position", self.pb), settings(I, self.acc, self.F, self.jerk))
        I.setattr(self.B, "prev_state", self.A)
        self.pause = None
        if pause:
            self.pause = real(I, "pause")
            I.assume(cmp(I, self.pause, ">=", ZERO))
            I.setattr(self.B, "pause", self.pause)
        D = ZERO
        t = [ZERO] * 4
        if self.kind == TRAVEL:
            D = Num(I.sqrt(ssum(I, [sq(I, x) for x in self.d[:3]]).t, "dist"), FLT)
        elif self.kind == EXTRUDE:
            D = Num(I.abs_poly(self.d[3].t), FLT)
        if self.kind != NONE:
            t = [Num(I.div(I.mul(self.F.t, x.t), D.t), NPF) for x in self.d]
        self.md = MD({TRAVEL: "travel", EXTRUDE: "extrusion", NONE: "none"}[self.kind], D, self.acc, self.F, self.pa, self.pb)
        if self.kind != NONE:
            I.st.ghost[("move", self.B.id)] = self.md
        I.st.ghost[("target", self.B.id)] = (self.A, t)
        for s in (self.A, self.B):
            if s is not None:
                o = I.get(s)
                I.st.heap[s.id] = HInst(o.cls, {k: v for k, v in o.fields.items() if "next_state" not in k}, True, "opaque-fields")


def last_block(I, p):
    """The block planned last: it ends at p, at some time and speed."""
    E, tb, te = real(I, "Elast", NPF), real(I, "tblast", NPF), real(I, "telast", NPF)
    I.assume(z_and([cmp(I, E, ">=", ZERO), cmp(I, tb, ">=", ZERO), cmp(I, te, ">=", tb)]))
    q = vec(I, "position", [real(I, "q" + k) for k in "xyze"])
    s = abstract_segments(I, "last", tb, te, q, vec(I, "position", p), velocity_of(I, "lastvb", real(I, "Blast", NPF)), velocity_of(I, "lastve", E))
    ex = I.bool_("last extrudes")
    return I.alloc(HInst(cls(I, "planner_block:planner_block"), {"segments": s, "_next_block": None, "is_extruding": ex}, False, "opaque-fields"))


def check_new_block(I, st, blk, last):
    """What holds for a block when it is planned; the end speed may still be too high to be kept by the next one."""
    I.oblige(TRUE if I.force(I.getattr(blk, "state_B")) == st.B else FALSE, "the block leads to its state")
    I.oblige(TRUE if I.force(I.getattr(blk, "state_A")) == st.A else FALSE, "the block begins at the state before")
    I.oblige(TRUE if I.force(I.getattr(blk, "prev_block")) == last else FALSE, "the block is linked to the block before it")
    I.oblige(TRUE if I.force(I.getattr(blk, "next_block")) is None else FALSE, "the block planned last has no following block")
    e = Ends(I, blk)
    if last is None:
        I.oblige(z_and([eqn(I, e.tb, ZERO), eqn(I, e.B, ZERO)]), "the first block begins at time zero, at rest")
    else:
        p = Ends(I, last)
        I.oblige(eqn(I, e.tb, p.te), "the block begins when the previous one ends")
        I.oblige(cmp(I, e.B, "<=", p.E), "the block does not begin faster than the previous one ends")
        for x, y in zip(e.p0, p.p1):
            I.oblige(eqn(I, x, y), "the block begins where the previous one ends")
    for x, y in zip(e.p0, st.pa if not st.first else st.pb):
        I.oblige(eqn(I, x, y), "the block begins at the position of the state before")
    for x, y in zip(e.p1, st.pb):
        I.oblige(eqn(I, x, y), "the block ends at the commanded position")
    I.oblige(cmp(I, e.te, ">=", e.tb), "the block does not end before it begins")
    I.oblige(z_and([cmp(I, e.B, ">=", ZERO), cmp(I, e.E, ">=", ZERO)]), "speeds are not negative")
    if st.kind != TRAVEL or st.pause is not None:
        I.oblige(eqn(I, e.E, ZERO), "a block without travel or with a dwell ends at rest")
    else:
        I.oblige(z_and([cmp(I, e.B, "<=", st.F), cmp(I, e.E, "<=", st.F)]), "speeds are at most the feedrate")
        I.oblige(reach_ok(I, e.E, e.B, st.md), "the end speed can be reached")
    return e


def inner(I, st, blk):
    """The phases inside the block follow each other: the motion as planned, then the dwell."""
    o = I.get(I.force(I.getattr(blk, "segments")))
    motion = o.pre is not None
    I.oblige(TRUE if motion == (st.kind != NONE) else FALSE, "the block holds the planned motion")
    I.oblige(TRUE if len(o.items) == (1 if st.pause is not None else 0) else FALSE, "a dwell adds one phase, and nothing else does")
    if len(o.items) != 1 or st.pause is None:
        return
    if motion and I.st.ghost.get("planned list") != I.force(I.getattr(blk, "segments")):
        raise Unsupported("phases of the motion")
    s = seg_view(I, I.force(o.items[0]))
    if motion:
        m = o.pre.get(I, I.norm(o.pre.n - ONE))
        t1, p1 = num(I, attr(I, m, "t_end")), comps(I, attr(I, m, "pos_end"))
        v1 = num(I, call(I, attr(I, m, "vel_end"), "get_norm"))
        I.oblige(eqn(I, v1, ZERO), "the motion before a dwell ends at rest")
    elif st.last is not None:
        p = Ends(I, st.last)
        t1, p1 = p.te, p.p1
    else:
        t1, p1 = ZERO, st.pb
    I.oblige(eqn(I, s["t0"], t1), "the dwell begins when the motion before it ends")
    I.oblige(eqn(I, s["t1"], I.binop_num("+", s["t0"], st.pause)), "the dwell lasts exactly the commanded time")
    for k in range(4):
        I.oblige(z_and([eqn(I, s["p0"][k], p1[k]), eqn(I, s["p1"][k], p1[k]), eqn(I, p1[k], st.pb[k])]), "the dwell stands at the current position")
        I.oblige(z_and([eqn(I, s["v0"][k], ZERO), eqn(I, s["v1"][k], ZERO)]), "the dwell stands still")


class States:
    """Tag of the list of states."""


class Plan(LoopSpec):
    """Planning loop: the blocks planned so far form a linked, continuous trajectory up to the state before."""

    name = "the blocks so far form one linked, continuous trajectory up to the state before"

    def match(self, I, L):
        return isinstance(base_tag(L.seq.tag), States)

    def enter(self, I, L):
        vs = I.get(L.frame).vars
        lists = [(nm, v) for nm, v in vs.items() if isinstance(v, Ref) and isinstance(I.get(v), HList) and I.get(v).kind == "list" and v != I.st.ghost["states"]]
        if len(lists) != 1:
            raise Unsupported("planning loop with several lists")
        o = I.get(lists[0][1])
        I.oblige(TRUE if o.pre is None and not o.items else FALSE, "loop invariant before the loop: no block is planned yet")
        L.data["list"] = lists[0][1]
        L.data["none"] = [nm for nm, v in vs.items() if v is None]

    def havoc(self, I, L, k):
        r = L.data["list"]
        L.touch(r)
        if L.k is None:
            I.st.heap[r.id] = HList((), SymSeq(I.int_("blocks").t, lambda J, i: J.unsupported("block of the result"), None), "list")
            I.st.ghost["returned"] = r
            return
        first = I.branch(iz_(k) == 0)
        st = Step(I, first, I.st.ghost["what"] == "dwells" or I.decide(2) == 1)
        I.st.ghost["step"] = st
        empty = True if first else I.decide(2) == 0
        st.last = last = None if empty else last_block(I, st.pa)
        if empty:
            I.st.heap[r.id] = HList((), None, "list")
        else:
            n = I.int_("planned")
            I.assume(n.z() >= 1)

            def get(J, i):
                if J.norm(J.norm(i) - n.t + ONE).is_zero():
                    return last
                raise Unsupported("a block before the last one")
            I.st.heap[r.id] = HList((), SymSeq(n.t, get, None), "list")
            L.touch(last)
        for nm in L.data["none"]:
            if isinstance(I.get(L.frame).vars.get(nm), Havoc):
                L.set(I, nm, last)
        L.data["before"] = dict(I.st.heap)

    def check(self, I, L, k):
        r, st, before = L.data["list"], I.st.ghost["step"], L.data["before"]
        o, old = I.get(r), before[r.id]
        last = st.last
        ok = {L.frame.id, r.id}
        if not (o.pre is old.pre):
            raise Unsupported("planning loop which rebuilds the list")
        if not o.items:
            I.oblige(TRUE if st.kind == NONE and st.pause is None or I.st.ghost["what"] == "dwells" and st.pause is None else FALSE, "every move and every dwell is planned")
            new = last
        else:
            I.oblige(TRUE if len(o.items) == 1 else FALSE, "one block per state")
            I.oblige(TRUE if st.kind != NONE or st.pause is not None else FALSE, "only moves and dwells make blocks")
            new = I.force(o.items[0])
            if not isinstance(new, Ref):
                raise Unsupported("planning loop")
            if last is not None:
                ok.add(last.id)
                a, b = before[last.id].fields, I.get(last).fields
                I.oblige(TRUE if b.get("_next_block") == new else FALSE, "the previous block is linked to the new one")
                if set(a) != set(b) or any(not (a[x] is b[x] or I.same(a[x], b[x])) for x in a if x != "_next_block"):
                    raise Unsupported("planning changes the previous block")
            if I.st.ghost["what"] == "dwells":
                inner(I, st, new)
            else:
                check_new_block(I, st, new, last)
        for nm in L.data["none"]:
            v = I.get(L.frame).vars.get(nm)
            if nm in L.data["names"] and v != new:
                raise Unsupported("planning loop with another variable")
        for i in changed(I, before):
            if i not in ok:
                raise Unsupported("planning changes something else")


def iz_(p):
    from .traj import iz

    return iz(p)


def u_plan(fw, what):
    def fn(I):
        I.st.ghost["what"] = what
        n = I.int_("nstates")
        I.assume(n.z() >= 0)

        def get(J, i):
            st = J.st.ghost.get("step")
            if st is None:
                raise Unsupported("another state of the list")
            return st.B

        states = I.alloc(HList((), SymSeq(n.t, get, States()), "list", True))
        I.st.ghost["states"] = states
        r = I.force(I.call(I.member("gcode_interpreter:generate_planner_blocks"), [], {"states": states, "firmware": fw}))
        I.oblige(TRUE if r == I.st.ghost.get("returned") else FALSE, "the planned blocks are returned")
    return fn


PLAN_CONTRACTS = [MoveMaker2(), Stub("gcode_interpreter.update_progress")] + junction_stubs()


# ------------------------------------------------------------------ correction of all blocks, simulation, refresh


class Blocks:
    """Tag of the list of planned blocks."""


class Ordered(LoopSpec):
    name = "the first k blocks have been corrected, in order"

    def match(self, I, L):
        return isinstance(base_tag(L.seq.tag), Blocks)

    def enter(self, I, L):
        I.oblige(eqn(I, Num(I.st.ghost["count"], INT), ZERO), "correction begins with the first block")
        L.data["numbers"] = [(nm, v) for nm, v in I.get(L.frame).vars.items() if isinstance(v, Num)]

    def havoc(self, I, L, k):
        I.st.ghost["count"] = k
        for nm, v in L.data["numbers"]:         # any number: progress display
            if isinstance(I.get(L.frame).vars[nm], Havoc):
                L.set(I, nm, real(I, nm, FLT))

    def check(self, I, L, k):
        I.oblige(eqn(I, Num(I.st.ghost["count"], INT), Num(k, INT)), "each block is corrected once, in order")


class SelfCorrection:
    target = "pyGCodeDecode.planner_block.planner_block.self_correction"

    def apply(self, I, v):
        r = I.force(v["self"])
        i = I.st.ghost.get(("no", r.id))
        if i is None:
            raise Unsupported("correction of an unknown block")
        d = {k: x for k, x in v.items() if k != "self"}
        if set(d) - {"tolerance"} or "tolerance" in d and not I.branch(z_and([cmp(I, num(I, d["tolerance"]), ">=", ZERO), cmp(I, num(I, d["tolerance"]), "<=", Num(Poly.const(1).scale(FR(1, 10**12)), FLT))])):
            raise Unsupported("correction with another tolerance")
        c = I.st.ghost["count"]
        I.oblige(eqn(I, Num(i, INT), Num(c, INT)), "blocks are corrected in order, none is left out")
        I.st.ghost["count"] = I.norm(c + ONE)
        return I.bool_("corrected")


def u_self_correct(I):
    n = I.int_("nblocks")
    I.assume(n.z() >= 0)

    def get(J, i):
        r = J.alloc(HInst(cls(J, "planner_block:planner_block"), {}, True, "opaque-fields"))
        J.st.ghost[("no", r.id)] = J.norm(i)
        return r

    from .traj import simulation
    bl = I.alloc(HList((), SymSeq(n.t, get, Blocks()), "list", True))
    sim = simulation(I, blocklist=bl)
    I.st.ghost["count"] = Poly.const(0)
    before = dict(I.get(sim).fields)
    call(I, sim, "trajectory_self_correct")
    I.oblige(eqn(I, Num(I.st.ghost["count"], INT), n), "every block is corrected")
    if set(I.get(sim).fields) != set(before) or any(not I.same(I.get(sim).fields[k], before[k]) for k in before if k != "last_index"):
        raise Unsupported("correction changes the simulation")


def flow_stubs(I):
    """Generation of states and blocks, recording what they are called with."""
    g = I.st.ghost

    def states(J, v):
        r = J.alloc(HList((), SymSeq(J.int_("ns").t, None, States()), "list", True))
        J.st.ghost["states"] = r
        J.oblige(TRUE if J.force(v["initial_machine_setup"]) == J.st.ghost["setup"] else FALSE, "states are generated with the simulation's setup")
        J.oblige(TRUE if J.force(v["filepath"]) == "x.gcode" else FALSE, "states are generated from the simulation's file")
        return r

    def blocks(J, v):
        J.oblige(TRUE if J.force(v["states"]) == J.st.ghost["states"] else FALSE, "blocks are planned for the simulation's states")
        J.oblige(zb(J.truth(J.eq(v["firmware"], J.st.ghost["firmware"]))), "blocks are planned with the firmware of the setup")
        r = J.alloc(HList((), SymSeq(J.int_("nb").t, None, Blocks()), "list", False))
        J.st.ghost["blocks"] = r
        J.st.ghost["corrected"] = None
        return r

    def correct(J, v):
        J.st.ghost["corrected"] = J.force(J.getattr(v["self"], "blocklist"))

    return [
        Stub("gcode_interpreter.simulation.check_initial_setup"), Stub("state_generator.generate_states", states),
        Stub("gcode_interpreter.generate_planner_blocks", blocks), Stub("gcode_interpreter.simulation.trajectory_self_correct", correct),
        Stub("gcode_interpreter.simulation.print_summary"),
    ]


def finished(I, sim):
    g = I.st.ghost
    b = I.force(I.getattr(sim, "blocklist"))
    I.oblige(TRUE if g.get("blocks") is not None and b == g["blocks"] else FALSE, "the block list is the one planned last")
    I.oblige(TRUE if g.get("corrected") is not None and g["corrected"] == b else FALSE, "the block list is corrected")
    I.oblige(TRUE if I.force(I.getattr(sim, "states")) == g["states"] else FALSE, "the simulation keeps its states")


def u_simulate(again):
    def fn(I):
        from .traj import GetDict, setup_obj
        fw = Phi([(I.bool_(f"fw{k}"), f) for k, f in enumerate(FIRMWARES)])
        cs = [c for c, _ in fw.alts]
        I.assume(z_or(cs))
        for i, a in enumerate(cs):
            for b in cs[:i]:
                I.assume(z_not(z_and([a, b])))
        d = I.new_dict({"printer_name": "printer", "firmware": fw})
        I.st.ghost["setup"], I.st.ghost["firmware"] = d, fw
        old = dict(I.contracts)
        for c in flow_stubs(I) + [GetDict()]:
            I.contracts[c.target] = c
        sim = I.instantiate(cls(I, "gcode_interpreter:simulation"), [], {"gcode_path": "x.gcode", "initial_machine_setup": setup_obj(I, d), "output_unit_system": "SImm"})
        finished(I, sim)
        if again == "same states":
            I.st.ghost["blocks"] = I.st.ghost["corrected"] = None
            call(I, sim, "refresh")
            finished(I, sim)
        elif again == "new states":
            I.st.ghost["blocks"] = I.st.ghost["corrected"] = None
            new = I.alloc(HList((), SymSeq(I.int_("ns2").t, None, States()), "list", True))
            I.st.ghost["states"] = new
            call(I, sim, "refresh", new_state_list=new)
            finished(I, sim)
        I.contracts = old
    return fn


def u_timeshift(m):
    """A time shift moves every phase of a block by the same time and changes nothing else."""
    def fn(I):
        segs, olds = [], []
        for k in range(m):
            t = [real(I, f"t{k}_{x}") for x in "be"]
            f = [vec(I, n, [real(I, f"{n}{k}{x}{c}") for c in "xyze"]) for n, x in (("position", "b"), ("position", "e"), ("velocity", "b"), ("velocity", "e"))]
            segs.append(segment(I, *t, *f))
            olds.append((t, f))
        lst = I.new_list(segs)
        blk = I.alloc(HInst(cls(I, "planner_block:planner_block"), {"segments": lst, "blocktype": "trapezoid"}, False, "opaque-fields"))
        d = real(I, "delta")
        before = dict(I.st.heap)
        call(I, blk, "timeshift", delta_t=d)
        I.oblige(TRUE if I.force(I.getattr(blk, "segments")) == lst and I.iterate(lst) == segs else FALSE, "the phases stay the same")
        for s, (t, f) in zip(segs, olds):
            for nm, x in (("t_begin", t[0]), ("t_end", t[1])):
                I.oblige(eqn(I, num(I, attr(I, s, nm)), I.binop_num("+", x, d)), "the time is shifted")
            for nm, x in zip(("pos_begin", "pos_end", "vel_begin", "vel_end"), f):
                I.oblige(TRUE if I.force(I.getattr(s, nm)) == x else FALSE, "positions and velocities stay")
        ok = {s.id for s in segs}
        for i in changed(I, before):
            if i not in ok:
                raise Unsupported("a time shift changes something else")
    return fn
