"""Oracles C01-C04, C07."""

from base import *  # noqa: F401,F403
from base import FIRMWARES, Bad, close, coord, need, norm, p4, quiet, reference_states, rnd_program, rnd_setup, segs_of, simulate, states_of, vclose
import math


def gen_prog(rng, **kw):
    opts = {k: kw.pop(k) for k in ("units", "dwell", "combine") if k in kw}
    return {"prog": rnd_program(rng, **opts), "setup": rnd_setup(rng, **kw)}


def check_move(pa, pb, acc, F, v_prev, v_end, t0, segs, w):
    """One planned move against the text of C01."""
    need(len(segs) > 0, "%s: no motion profile found", w)
    d = [b - a for a, b in zip(pa, pb)]
    D = norm(d[:3])
    trav = D > 0
    if not trav:
        D = abs(d[3])
    if D < 1e-6:
        return
    u = [x / D for x in d]
    us = norm(u)
    tp = 1e-6 * (1 + D)
    tv = 2e-6 * max(F, 1e-3)
    along = (lambda v: sum(x * y for x, y in zip(v[:3], u[:3]))) if trav else (lambda v: v[3] * u[3])
    prev = None
    for k, s in enumerate(segs):
        ww = f"{w}, phase {k + 1} of {len(segs)}"
        p0, p1, v0, v1 = p4(s.pos_begin), p4(s.pos_end), p4(s.vel_begin), p4(s.vel_end)
        for x in p0 + p1 + v0 + v1 + [s.t_begin, s.t_end]:
            need(math.isfinite(x), "%s: value is not finite", ww)
        s0, s1 = along(v0), along(v1)
        need(vclose(v0, [s0 * x for x in u], tv * us) and vclose(v1, [s1 * x for x in u], tv * us), "%s: velocity not along the commanded 4D line: %s %s", ww, v0, v1)
        dt = s.t_end - s.t_begin
        need(dt >= -1e-12, "%s: negative duration %r", ww, dt)
        for v in (s0, s1):
            need(-tv <= v <= F + tv, "%s: speed %r outside [0, %r]", ww, v, F)
        const = close(s0, F, tv) and close(s1, F, tv)
        need(const or close(abs(s1 - s0), acc * dt, tv), "%s: speed change %r in %r s at acceleration %r", ww, s1 - s0, dt, acc)
        need(vclose([b - a for a, b in zip(p0, p1)], [x * (s0 + s1) / 2 * dt for x in u], tp), "%s: displacement does not follow the velocity", ww)
        if prev is not None:
            need(close(s.t_begin, prev[0], 1e-9), "%s: gap in time", ww)
            need(vclose(p0, prev[1], tp), "%s: gap in position", ww)
            need(close(s0, prev[2], tv), "%s: gap in speed %r -> %r", ww, prev[2], s0)
        prev = (s.t_end, p1, s1)
    need(close(segs[0].t_begin, t0, 1e-9 * (1 + abs(t0))), "%s: begins at %r instead of %r", w, segs[0].t_begin, t0)
    need(vclose(p4(segs[0].pos_begin), pa, tp), "%s: begins at %s instead of %s", w, p4(segs[0].pos_begin), pa)
    need(vclose(p4(segs[-1].pos_end), pb, tp), "%s: ends at %s instead of %s", w, p4(segs[-1].pos_end), pb)
    b = along(p4(segs[0].vel_begin))
    exp = min(v_prev, F, math.sqrt(v_end * v_end + 2 * acc * D))
    need(close(b, exp, tv), "%s: begins at speed %r instead of %r", w, b, exp)


def junction_of(block, fw):
    import pyGCodeDecode.junction_handling as jh

    c = {None: jh.junction_handling, "marlin_jd": jh.junction_handling_marlin_jd, "klipper": jh.junction_handling_klipper,
         "marlin_jerk": jh.junction_handling_marlin_jerk, "MKA": jh.junction_handling_MKA}[fw]
    return c(state_A=block.state_A, state_B=block.state_B)


class C01:
    def gen(rng):
        if rng.random() < 0.5:      # one isolated move after a prescribed previous speed
            a = [coord(rng) for _ in range(4)]
            kind = rng.random()
            d = [coord(rng) if rng.random() < 0.7 else 0 for _ in range(3)] + [rng.choice([0, 1, -0.5, 0.03])]
            if kind < 0.15:
                d = [0, 0, 0, rng.choice([1, -1, 0.5, 2.25])]
            if not any(d):
                d[0] = 3
            acc = rng.choice([50, 100, 200, 1000, 333.3])
            F = rng.choice([1, 5, 10, 20, 50, 100, 77.7])
            D = norm(d[:3]) or abs(d[3])
            ve = rng.choice([0, F, F / 2, rng.uniform(0, F), min(F, math.sqrt(2 * acc * D)), min(F, math.sqrt(acc * D))])
            vp = rng.choice([0, F, F / 2, 2 * F, ve, rng.uniform(0, 2 * F), math.sqrt(2 * acc * D), math.sqrt(ve * ve + 2 * acc * D),
                             math.sqrt(max(ve * ve - 2 * acc * D, 0)), math.sqrt(ve * ve + acc * D)])
            return {"kind": "single", "a": a, "d": d, "acc": acc, "F": F, "vp": min(vp, 1e3), "ve": ve, "first": vp == 0 and rng.random() < 0.5}
        return {"kind": "prog", **gen_prog(rng)}

    def check(c):
        if c["kind"] == "single":
            return C01.single(c)
        from pyGCodeDecode.gcode_interpreter import generate_planner_blocks

        st = states_of(c["prog"], c["setup"])
        with quiet():
            blocks = generate_planner_blocks(st, firmware=c["setup"]["firmware"])
        for n, b in enumerate(blocks):
            A, B = p4(b.state_A.state_position) if b.state_A else None, p4(b.state_B.state_position)
            if A is None or A == B:
                continue
            S = b.state_B.state_p_settings
            prev = blocks[n - 1].get_segments()[-1] if n else None
            segs = list(b.get_segments())
            if b.state_B.pause is not None:
                segs = segs[:-1]
                ve = 0
            else:
                ve = float(junction_of(b, c["setup"]["firmware"]).get_junction_vel())
            check_move(A, B, S.p_acc, S.speed, norm(p4(prev.vel_end)[:3]) if prev else 0.0, ve, prev.t_end if prev else 0.0, segs,
                       f"move to line {b.state_B.line_number}")
            dd = [y - x for x, y in zip(A, B)]
            need(b.state_B.pause is not None or True, "")
            del dd

    def single(c):
        from pyGCodeDecode.planner_block import planner_block
        from pyGCodeDecode.state import state
        from pyGCodeDecode.utils import position, segment, velocity

        a = [float(x) for x in c["a"]]
        b = [x + y for x, y in zip(a, c["d"])]
        if a == b:
            return
        ps = state.p_settings(p_acc=c["acc"], jerk=0, vX=1e3, vY=1e3, vZ=1e3, vE=1e3, speed=c["F"])
        A, B = state(position(*a), ps), state(position(*b), ps)
        A.next_state, B.prev_state = B, A
        prev, t0 = None, 0.0
        if not c["first"]:
            Z = state(position(*[x - y for x, y in zip(a, c["d"])]), ps)
            Z.next_state, A.prev_state = A, Z
            with quiet():
                prev = planner_block(state=A, prev_block=None, firmware=None)
            t0 = 2.5
            v = velocity(c["vp"], 0, 0, 0)
            prev.segments = [segment(t_begin=t0 - 1, t_end=t0, pos_begin=position(a[0] - c["vp"], *a[1:]), pos_end=position(*a), vel_begin=v, vel_end=v)]
        with quiet():
            blk = planner_block(state=B, prev_block=prev, firmware=None)
            check_move(a, b, c["acc"], c["F"], 0.0 if c["first"] else c["vp"], 0.0, t0, blk.get_segments(), "stop move")
            if hasattr(blk, "move_maker2"):
                blk.move_maker2(v_end=c["ve"])
                check_move(a, b, c["acc"], c["F"], 0.0 if c["first"] else c["vp"], c["ve"], t0, blk.get_segments(), "move with end speed %r" % c["ve"])

    def from_model(m, unit):
        return None


def vel_of(A, B, F):
    d = [y - x for x, y in zip(A, B)]
    L = norm(d[:3])
    if L > 0:
        return [F * x / L for x in d], L
    if d[3] != 0:
        return [F * x / abs(d[3]) for x in d], 0.0
    return [0.0] * 4, 0.0


def next_vel(states, i):
    """Velocity of the next move that changes the 4D position (zero if there is none), its feedrate and travel length."""
    P = [p4(s.state_position) for s in states]
    for j in range(i + 1, len(states)):
        if P[j] != P[i]:
            v, L = vel_of(P[i], P[j], states[j].state_p_settings.speed)
            return v, states[j].state_p_settings.speed, L
    return [0.0] * 4, None, 0.0


def ref_jd(v0, v1, acc, jerk, F):
    n0, n1 = norm(v0[:3]), norm(v1[:3])
    if n0 == 0 or n1 == 0:
        return [0.0]
    cos = -sum(x * y for x, y in zip(v0[:3], v1[:3])) / (n0 * n1)
    s = math.sqrt(max(0.0, (1 - cos) / 2))
    if jerk == 0:
        return [0.0, F]          # r = 0; only the straight pass is left open
    out = []
    lo, hi, eps = math.sin(math.radians(9)), math.sin(math.radians(81)), 1e-9
    if s <= lo + eps:
        out.append(0.0)
    if s >= hi - eps:
        out.append(F)
    if lo - eps < s < hi + eps:
        out.append(min(F, math.sqrt(0.4 * jerk * jerk * s / (1 - s))))
    return out


def ref_klipper(v0, v1, acc, jerk, F, L):
    n0, n1 = norm(v0[:3]), norm(v1[:3])
    if n0 == 0 or n1 == 0:
        return [0.0]
    cos = -sum(x * y for x, y in zip(v0[:3], v1[:3])) / (n0 * n1)
    out = []
    if cos > 0.999999 - 1e-12:
        out.append(0.0)
    if cos <= 0.999999 + 1e-12:
        cos = max(cos, -0.999999)
        s = math.sqrt(0.5 * (1 - cos))
        t = s / math.sqrt(max(0.5 * (1 + cos), 1e-300))
        d = jerk ** 2 * (math.sqrt(2) - 1) / acc
        out.append(math.sqrt(min(acc * d * s / (1 - s), 0.5 * acc * L * t, F * F)))
    return out


def ref_jerk(v0, v1, jerk):
    n0 = norm(v0[:3])
    dv = norm([x - y for x, y in zip(v0[:3], v1[:3])])
    if jerk == 0:
        return [0.0] if dv > 1e-9 * (1 + n0) else [0.0, n0]
    return [n0 * min(1.0, 2 * jerk / dv) if dv > 0 else n0]


def ref_mka(v0, v1, jerk):
    n0, n1 = norm(v0[:3]), norm(v1[:3])
    m = min(n0, n1)
    if n0 == 0 or n1 == 0:
        return [0.0]
    w = 0.0
    for a, b in zip(v0, v1):
        a = a * m / n0
        j = abs(a - b) if a * b > 0 else max(abs(a), abs(b))
        w = max(w, j)
    return [m * min(1.0, jerk / w) if w > 0 else m] + ([0.0, m] if jerk == 0 and w <= 1e-9 * m else [])


def junctions(c):
    st = states_of(c["prog"], c["setup"])
    for i in range(1, len(st)):
        for fw in FIRMWARES:
            yield st, i, fw


class Blk:
    def __init__(self, a, b):
        self.state_A, self.state_B = a, b


class C02:
    def gen(rng):
        return gen_prog(rng, dwell=False)

    def check(c):
        for st, i, fw in junctions(c):
            v = float(junction_of(Blk(st[i - 1], st[i]), fw).get_junction_vel())
            A, B = p4(st[i - 1].state_position), p4(st[i].state_position)
            F = st[i].state_p_settings.speed
            w = f"{fw} junction after line {st[i].line_number}"
            need(math.isfinite(v) and v >= 0, "%s: speed %r", w, v)
            need(v <= F * (1 + 1e-9), "%s: speed %r above the commanded feedrate %r", w, v, F)
            v1, Fn, _ = next_vel(st, i)
            trav = norm([x - y for x, y in zip(A[:3], B[:3])]) > 0
            if fw is None or not trav:
                need(v == 0, "%s: speed %r, expected a full stop", w, v)
            if fw in ("marlin_jd", "klipper") and norm(v1[:3]) == 0:
                need(v == 0, "%s: speed %r although no travel follows", w, v)
            if fw == "MKA":
                need(v <= (Fn or 0) * (1 + 1e-9), "%s: speed %r above the following feedrate %r", w, v, Fn)


class C03:
    gen = C02.gen

    def check(c):
        for st, i, fw in junctions(c):
            if fw is None:
                continue
            A, B = p4(st[i - 1].state_position), p4(st[i].state_position)
            S = st[i].state_p_settings
            v0, L = vel_of(A, B, S.speed)
            v1, _, Ln = next_vel(st, i)
            if L < 1e-9:
                continue
            if fw != "marlin_jerk" and norm(v1[:3]) == 0:
                continue
            ref = {"marlin_jd": lambda: ref_jd(v0, v1, S.p_acc, S.jerk, S.speed), "klipper": lambda: ref_klipper(v0, v1, S.p_acc, S.jerk, S.speed, min(L, Ln)),
                   "marlin_jerk": lambda: ref_jerk(v0, v1, S.jerk), "MKA": lambda: ref_mka(v0, v1, S.jerk)}[fw]()
            v = float(junction_of(Blk(st[i - 1], st[i]), fw).get_junction_vel())
            need(any(close(v, r, 1e-6 * max(1.0, S.speed)) for r in ref), "%s junction after line %s: %r, published model gives %s", fw, st[i].line_number, v, ref)


class C04:
    def FIXED():
        # a braking distance of more blocks than the interpreter's recursion limit
        n = 2300
        prog = [{"cmds": [["G1", {"X": round(i * 0.02, 3), **({"F": 6000} if i == 1 else {})}]], "comment": None} for i in range(1, n)]
        yield {"prog": prog, "setup": {"p_vel": 35, "p_acc": 100, "jerk": 10, "vX": 1000, "vY": 1000, "vZ": 1000, "vE": 1000, "X": 0, "Y": 0, "Z": 0, "E": 0, "firmware": "marlin_jd"}, "refresh": False}

    def gen(rng):
        c = gen_prog(rng)
        c["refresh"] = rng.random() < 0.3
        return c

    def check(c):
        sim = simulate(c["prog"], c["setup"])
        C04.traj(sim, c, "")
        if c["refresh"]:
            with quiet():
                sim.refresh()
            C04.traj(sim, c, "after refresh: ")
            other = states_of(list(reversed(c["prog"])), c["setup"])
            with quiet():
                sim.refresh(new_state_list=other)
            need(sim.states is other, "refresh does not use the new states")
            C04.traj(sim, c, "after refresh with new states: ")

    def traj(sim, c, w):
        blocks, segs, states = sim.blocklist, segs_of(sim), sim.states
        for n, b in enumerate(blocks):
            need(b.prev_block is (blocks[n - 1] if n else None), w + "block %d: wrong prev link", n)
            need(b.next_block is (blocks[n + 1] if n + 1 < len(blocks) else None), w + "block %d: wrong next link", n)
            need(len(b.get_segments()) > 0, w + "block %d has no segments", n)
        targets = []
        cur = p4(states[0].state_position)
        for s in states[1:]:
            p = p4(s.state_position)
            if p != cur:
                targets.append(p)
                cur = p
        if segs:
            need(close(segs[0].t_begin, 0, 1e-12), w + "first segment begins at %r", segs[0].t_begin)
            need(norm(p4(segs[0].vel_begin)) <= 1e-9, w + "does not start at rest")
            need(vclose(p4(segs[0].pos_begin), p4(states[0].state_position), 1e-9 * (1 + norm(p4(states[0].state_position)))), w + "does not start at the initial position")
        fmax = max(s.state_p_settings.speed for s in states)
        for k in range(1, len(segs)):
            a, b = segs[k - 1], segs[k]
            need(close(a.t_end, b.t_begin, 1e-9 * (1 + abs(b.t_begin))), w + "segment %d begins at %r, previous ends at %r", k, b.t_begin, a.t_end)
            need(vclose(p4(a.pos_end), p4(b.pos_begin), 1e-6), w + "segment %d begins at %s, previous ends at %s", k, p4(b.pos_begin), p4(a.pos_end))
            na, nb = norm(p4(a.vel_end)[:3]), norm(p4(b.vel_begin)[:3])
            need(close(na, nb, 1e-7 * max(1, fmax)), w + "segment %d begins with speed %r, previous ends with %r", k, nb, na)
        # commanded positions in order
        i = 0
        for b in blocks:
            e = p4(b.get_segments()[-1].pos_end)
            t = p4(b.state_B.state_position)
            need(vclose(e, t, 1e-6 * (1 + norm(t))), w + "block of line %s ends at %s instead of %s", b.state_B.line_number, e, t)
        order = [states.index(b.state_B) for b in blocks]
        need(order == sorted(set(order)), w + "blocks are not in program order")
        ends = [p4(b.get_segments()[-1].pos_end) for b in blocks]
        for t in targets:
            while i < len(ends) and not vclose(ends[i], t, 1e-6 * (1 + norm(t))):
                i += 1
            if i >= len(ends):
                # floating-point residual moves need no segment of their own
                need(False, w + "commanded position %s is not reached in order", t)


class C07:
    def gen(rng):
        c = gen_prog(rng)
        n = rng.randint(0, len(c["prog"]))
        d = {"P": rng.choice([0, 100, 1500])} if rng.random() < 0.5 else {"S": rng.choice([0.5, 2])}
        if rng.random() < 0.3:
            d = {"S": 1, "P": 300}
        c["prog"].insert(n, {"cmds": [["G4", d]], "comment": None})
        return c

    def check(c):
        sim = simulate(c["prog"], c["setup"])
        segs = segs_of(sim)
        ref = reference_states(c["prog"], c["setup"])
        owner = {id(b.state_B): b for b in sim.blocklist}
        need(len(ref) == len(sim.states), "number of states")
        dwell_ids = set()
        for s, r in zip(sim.states, ref):
            if r["pause"] is None:
                continue
            w = f"dwell of line {r['line']}"
            b = owner.get(id(s))
            need(b is not None, "%s: no standstill phase", w)
            d = b.get_segments()[-1]
            dwell_ids.add(id(d))
            need(close(d.t_end - d.t_begin, r["pause"], 1e-9 * (1 + abs(d.t_end))), "%s: lasts %r instead of %r", w, d.t_end - d.t_begin, r["pause"])
            need(norm(p4(d.vel_begin)) == 0 and norm(p4(d.vel_end)) == 0, "%s: not at standstill", w)
            need(vclose(p4(d.pos_begin), r["pos"], 1e-6 * (1 + norm(r["pos"]))) and vclose(p4(d.pos_begin), p4(d.pos_end), 0), "%s: at %s instead of %s", w, p4(d.pos_begin), r["pos"])
            k = [i for i, x in enumerate(segs) if x is d][0]
            if k:
                p = segs[k - 1]
                need(close(p.t_end, d.t_begin, 1e-9 * (1 + abs(d.t_begin))), "%s: begins at %r, preceding motion ends at %r", w, d.t_begin, p.t_end)
                need(norm(p4(p.vel_end)) <= 1e-7 * max(1, s.state_p_settings.speed), "%s: preceding motion ends at speed %r", w, norm(p4(p.vel_end)))
            else:
                need(close(d.t_begin, 0, 1e-12), "%s: begins at %r", w, d.t_begin)
            for x in b.get_segments()[:-1]:
                need(norm([q - y for q, y in zip(p4(x.pos_end), p4(x.pos_begin))]) > 0, "%s: more than one standstill phase", w)
        for x in segs:
            if id(x) not in dwell_ids and norm([q - y for q, y in zip(p4(x.pos_end), p4(x.pos_begin))]) == 0:
                need(x.t_end - x.t_begin <= 1e-9, "standstill of %r s without a dwell", x.t_end - x.t_begin)


ORACLES = {"C01": C01, "C02": C02, "C03": C03, "C04": C04, "C07": C07}
