"""C04: one continuous trajectory."""

from .move import *  # noqa: F401,F403
from .move import Move, block, seg_view, segment
from .common import *  # noqa: F401,F403
from .common import *
from .traj import Stub, iz
from .chain import *  # noqa: F401,F403
from .chain import (
    Align, BlockChain, begin, Collected, Ends, Epoch, MoveMaker2, Timeshift, WalkBack, begin_end, check_block, pair, same_block, self_check_stub, single_rule, MD, speeds_agree, ONE,
)
from .plan import FIRMWARES, PLAN_CONTRACTS, Ordered, Plan, SelfCorrection, u_plan, u_self_correct, u_simulate, u_timeshift
from .c08 import UnpackLoop, u_unpack
from pyvc.unit import Unit


def u_move(kind, prev):
    """move_maker2 against the contract used by planning and correction."""
    def fn(I):
        m = Move(I, kind, prev)
        v_end = real(I, "vend")
        I.assume(cmp(I, v_end, ">=", ZERO))
        b = block(I, state_A=m.A, state_B=m.B, _prev_block=m.prev, segments=I.new_list(()), direction=I.new_arr(tuple(m.u)), valid=True)
        call(I, b, "move_maker2", v_end=v_end)
        V = [seg_view(I, s) for s in I.iterate(call(I, b, "get_segments"))]
        I.oblige(TRUE if V else FALSE, "a motion profile is found")
        if not V:
            return
        sp = [[num(I, call(I, attr(I, s, v), "get_norm")) for v in ("vel_begin", "vel_end")] for s in I.iterate(call(I, b, "get_segments"))]
        for k in range(1, len(V)):
            I.oblige(eqn(I, V[k]["t0"], V[k - 1]["t1"]), "a phase begins when the previous one ends")
            for x, y in zip(V[k]["p0"], V[k - 1]["p1"]):
                I.oblige(eqn(I, x, y), "a phase begins where the previous one ends")
            I.oblige(eqn(I, sp[k][0], sp[k - 1][1]), "a phase begins at the speed at which the previous one ends")
        I.oblige(eqn(I, V[0]["t0"], m.t0), "the move begins when the previous one ends")
        I.oblige(cmp(I, V[-1]["t1"], ">=", m.t0), "the move does not end before it begins")
        for x, y in zip(V[0]["p0"], m.pa):
            I.oblige(eqn(I, x, y), "the move begins at the previous position")
        for x, y in zip(V[-1]["p1"], m.pb):
            I.oblige(eqn(I, x, y), "the move ends at the commanded position")
        if kind == "extrusion":
            for s in V:
                for v in ("v0", "v1"):
                    for x in s[v][:3]:
                        I.oblige(eqn(I, x, ZERO), "no travel speed without travel")
            return
        vc = m.v0 if I.branch(cmp(I, m.v0, "<=", m.speed)) else m.speed
        ve = v_end if I.branch(cmp(I, v_end, "<=", m.speed)) else m.speed
        md = MD(None, m.D, m.acc, m.speed, None, None)
        for g, nm in begin_end(I, sp[0][0], sp[-1][1], vc, ve, md):
            I.oblige(g, nm)
        t = I.force(I.getattr(b, "blocktype"))
        if t == "single":
            I.oblige(single_rule(I, sp[0][0], vc, ve, md), "a single phase is planned only if the speed cannot rise above both ends")
        else:
            I.oblige(eqn(I, sp[0][0], vc), "a move of several phases begins at the previous speed")
    return fn


def u_correct(I):
    """self_correction of block n, when all blocks before it have been corrected."""
    ch = BlockChain(I)
    a = I.st.ghost["epoch"]
    n = I.int_("n")
    I.assume(z3.And(n.z() >= 0, n.z() < ch.N.z()))
    a.rules = [lambda q: z3.Implies(q <= n.z(), z3.And(ch.agree(a, q), ch.together(a, q)))]
    I.st.ghost["corrected"] = n.t
    b = ch.block(I, n.t)
    begin(I)
    call(I, b, "self_correction")
    k = I.int_("k")
    I.assume(z3.And(k.z() >= 0, k.z() < ch.N.z()))
    blk = ch.block(I, k.t)
    e = Ends(I, blk)
    check_block(I, ch, k.t, e, "after the correction: ")
    if I.branch(z3.And(k.z() >= 1, k.z() <= n.z() + 1)):
        p = Ends(I, ch.block(I, I.norm(k.t - ONE)))
        pair(I, p, e, "after the correction: ")
        I.oblige(eqn(I, p.te, e.tb), "after the correction: the next block begins when the previous one ends")
    if I.branch(k.z() > n.z()):
        z = k.z()
        I.oblige(z_and([eqn(I, e.B, ch.fn(a.B, k.t)), eqn(I, e.E, ch.fn(a.E, k.t))]), "later blocks keep their speeds")
    if I.branch(k.z() > n.z() + 1):
        I.oblige(z_and([eqn(I, e.tb, ch.fn(a.tb, k.t)), eqn(I, e.te, ch.fn(a.te, k.t))]), "later blocks keep their times")


def units():
    out = [Unit(f"move_maker2 [{k}, {'after a block' if p else 'first block'}]", u_move(k, p), parts=6 if k == "travel" and p else 1) for k in ("travel", "extrusion") for p in (True, False)]
    out.append(Unit("self_correction", u_correct, contracts=[MoveMaker2(), Timeshift(), self_check_stub()], whiles=[WalkBack()], loops=[Align()], parts=4))
    for fw in FIRMWARES:
        out.append(Unit(f"planning with {fw}", u_plan(fw, "chain"), contracts=PLAN_CONTRACTS, loops=[Plan()]))
    out.append(Unit("unpack_blocklist", u_unpack(), loops=[UnpackLoop()]))
    out += [Unit(f"timeshift of {m} phases", u_timeshift(m)) for m in (1, 2, 3, 4)]
    out.append(Unit("trajectory_self_correct", u_self_correct, contracts=[SelfCorrection(), Stub("gcode_interpreter.update_progress")], loops=[Ordered()]))
    out += [Unit("simulation" + (f" refreshed with {a}" if a else ""), u_simulate(a)) for a in (None, "same states", "new states")]
    return out
