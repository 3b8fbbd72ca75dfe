"""Contract of planner_block.move_maker2: one commanded move from state_A to state_B.

State shared by the verification of the function itself (C01) and by its callers (C04, C07).
"""

import z3

from .common import *  # noqa: F401,F403
from .common import (
    FALSE, FLT, INT, NPF, TRUE, ZERO, HArr, HInst, HList, Num, Poly, Ref, SymSeq, attr, call, cls, cmp, comps, eqn,
    mkstate, mul, num, real, settings, sq, ssum, sub, vec, z_and, z_not, z_or, zb,
)
from pyvc.values import Unsupported


def unreadable(I, idx):
    raise Unsupported("only the last segment of the previous block is specified")


def block(I, **fields):
    c = cls(I, "planner_block:planner_block")
    f = {"_prev_block": None, "_next_block": None, "segments": None, "blocktype": None, "is_extruding": False}
    f.update(fields)
    return I.alloc(HInst(c, f))


def segment(I, t0, t1, p0, p1, v0, v1):
    """A segment object with given field values (no self check)."""
    c = cls(I, "utils:segment")
    return I.alloc(HInst(c, {"t_begin": t0, "t_end": t1, "pos_begin": p0, "pos_end": p1, "vel_begin": v0, "vel_end": v1}))


def prefix_list(I, last, name="segs"):
    n = I.int_(name + ".n")
    I.assume(n.z() >= 0)
    return I.alloc(HList((last,), SymSeq(n.t, unreadable, None)))


class Move:
    """Symbolic precondition of a move: states A, B; settings; previous segment."""

    def __init__(self, I, kind, prev):
        self.kind = kind
        self.acc, self.speed, self.jerk = real(I, "acc"), real(I, "speed"), real(I, "jerk")
        I.assume(cmp(I, self.acc, ">", ZERO))
        I.assume(cmp(I, self.speed, ">", ZERO))
        I.assume(cmp(I, self.jerk, ">=", ZERO))
        self.pa = [real(I, "a" + k) for k in "xyze"]
        if kind == "travel":
            self.d = [real(I, "d" + k) for k in "xyze"]
            s2 = ssum(I, [sq(I, x) for x in self.d[:3]])
            I.assume(cmp(I, s2, ">", ZERO))
            self.D = Num(I.sqrt(s2.t, "dist"), FLT)
        else:
            self.d = [ZERO, ZERO, ZERO, real(I, "de")]
            I.assume(cmp(I, self.d[3], "!=", ZERO))
            self.D = Num(I.abs_poly(self.d[3].t), FLT)
        self.pb = [I.binop_num("+", x, y) for x, y in zip(self.pa, self.d)]
        self.u = [Num(I.div(x.t, self.D.t), NPF) for x in self.d]
        self.A = mkstate(I, vec(I, "position", self.pa), settings(I, real(I, "accA"), real(I, "speedA"), real(I, "jerkA")))
        self.S = settings(I, self.acc, self.speed, self.jerk)
        self.B = mkstate(I, vec(I, "position", self.pb), self.S)
        I.setattr(self.A, "next_state", self.B)
        I.setattr(self.B, "prev_state", self.A)
        if prev:
            self.t0 = real(I, "tprev")
            self.vp = [real(I, "v" + k) for k in "xyze"]
            seg = segment(I, real(I, "tp0"), self.t0, vec(I, "position", [real(I, "q" + k) for k in "xyze"]),
                          vec(I, "position", self.pa), vec(I, "velocity", [real(I, "w" + k) for k in "xyze"]), vec(I, "velocity", self.vp))
            self.prev = block(I, segments=prefix_list(I, seg))
            self.v0 = Num(I.sqrt(ssum(I, [sq(I, x) for x in self.vp[:3]]).t, "vprev"), NPF)
        else:
            self.t0, self.vp, self.prev, self.v0 = Num(0, INT), [ZERO] * 4, None, ZERO


def seg_view(I, seg):
    return {
        "t0": num(I, attr(I, seg, "t_begin")), "t1": num(I, attr(I, seg, "t_end")),
        "p0": comps(I, attr(I, seg, "pos_begin")), "p1": comps(I, attr(I, seg, "pos_end")),
        "v0": comps(I, attr(I, seg, "vel_begin")), "v1": comps(I, attr(I, seg, "vel_end")),
        "pos": attr(I, seg, "pos_end"),
    }


def speed_of(I, v, u, kind):
    """Signed speed along the unit direction u of a velocity vector."""
    if kind == "travel":
        p = Poly.const(0)
        for x, y in zip(v[:3], u[:3]):
            p = p + I.mul(x.t, y.t)
        return Num(I.norm(p), NPF)
    return Num(I.mul(v[3].t, u[3].t), NPF)


def check_profile(I, m, segs, v_end, check=True):
    """The postcondition of one planned move (C01)."""
    V = [seg_view(I, s) for s in segs]
    I.oblige(len(V) >= 1, "a motion profile is found")
    if not V:
        return None
    a, F = m.acc, m.speed
    sp = []
    for k, s in enumerate(V):
        w = f"phase {k + 1} of {len(V)}: "
        s0, s1 = speed_of(I, s["v0"], m.u, m.kind), speed_of(I, s["v1"], m.u, m.kind)
        sp.append((s0, s1))
        for x, y in zip(s["v0"], m.u):
            I.oblige(eqn(I, x, mul(I, y, s0)), w + "begin velocity along the commanded direction")
        for x, y in zip(s["v1"], m.u):
            I.oblige(eqn(I, x, mul(I, y, s1)), w + "end velocity along the commanded direction")
        dt = sub(I, s["t1"], s["t0"])
        I.oblige(cmp(I, dt, ">=", ZERO), w + "duration is not negative")
        for v in (s0, s1):
            I.oblige(cmp(I, v, ">=", ZERO), w + "speed is not negative")
            I.oblige(cmp(I, v, "<=", F), w + "speed does not exceed the feedrate")
        adt = mul(I, a, dt)
        dv = sub(I, s1, s0)
        I.oblige(z_or([eqn(I, dv, adt), eqn(I, sub(I, ZERO, dv), adt), z_and([eqn(I, s0, F), eqn(I, s1, F)])]),
                 w + "acceleration is the configured one, or constant speed at the feedrate")
        # straight line at mean velocity: 2*(p1-p0) == (v0+v1)*dt
        for x0, x1, y in zip(s["p0"], s["p1"], m.u):
            lhs = mul(I, Num(2, INT), sub(I, x1, x0))
            rhs = mul(I, mul(I, y, I.binop_num("+", s0, s1)), dt)
            I.oblige(eqn(I, lhs, rhs), w + "position follows the velocity along the line")
        if k:
            q = V[k - 1]
            I.oblige(eqn(I, s["t0"], q["t1"]), w + "begins when the previous phase ends")
            for x, y in zip(s["p0"], q["p1"]):
                I.oblige(eqn(I, x, y), w + "begins where the previous phase ends")
            I.oblige(eqn(I, s0, sp[k - 1][1]), w + "begins at the speed at which the previous phase ends")
    I.oblige(eqn(I, V[0]["t0"], m.t0), "the move begins when the previous one ends")
    for x, y in zip(V[0]["p0"], m.pa):
        I.oblige(eqn(I, x, y), "the move begins at the previous position")
    for x, y in zip(V[-1]["p1"], m.pb):
        I.oblige(eqn(I, x, y), "the move ends at the commanded position")
    begin, end = sp[0][0], sp[-1][1]
    reach = I.binop_num("+", sq(I, v_end), mul(I, mul(I, Num(2, INT), a), m.D))
    b2 = sq(I, begin)
    lim = z_and([cmp(I, begin, "<=", m.v0), cmp(I, begin, "<=", F), cmp(I, b2, "<=", reach)])
    att = z_or([eqn(I, begin, m.v0), eqn(I, begin, F), eqn(I, b2, reach)])
    I.oblige(lim, "begin speed is at most the previous speed, the feedrate and the braking limit")
    I.oblige(att, "begin speed is the largest such speed")
    up = I.binop_num("+", b2, mul(I, mul(I, Num(2, INT), a), m.D))
    I.oblige(z_and([cmp(I, end, "<=", v_end), z_or([eqn(I, end, v_end), eqn(I, sq(I, end), up)])]),
             "the move ends at the requested speed, or as fast as it can")
    return V, sp


class MoveMaker2:
    """Call-site contract; the instance data (Move) is found through ghost state of the block."""

    target = "pyGCodeDecode.planner_block.planner_block.move_maker2"
