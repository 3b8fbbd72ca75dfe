"""Oracles C08-C14, C16, C17."""

import copy
import math
import os

from base import *  # noqa: F401,F403
from base import CUE, Bad, close, coord, fmt, need, norm, p4, quiet, render, rnd_program, rnd_setup, scratch, segs_of, simulate, vclose
from c_motion import gen_prog
import numpy as np

FACT = {"SI": 1e-3, "SImm": 1.0, "inch": 1 / 25.4}


def with_moves(gen):
    return gen


def ref_at(s, t):
    """Velocity and position inside a segment at time t (exact integration of linear velocity)."""
    v0, v1, p0 = p4(s.vel_begin), p4(s.vel_end), p4(s.pos_begin)
    T = s.t_end - s.t_begin
    x = (t - s.t_begin)
    a = [(b - c) / T if T > 0 else 0.0 for b, c in zip(v1, v0)]
    return [v + k * x for v, k in zip(v0, a)], [p + v * x + k * x * x / 2 for p, v, k in zip(p0, v0, a)]


class C08:
    def gen(rng):
        c = gen_prog(rng)
        c["q"] = [rng.choice([["u", rng.random()], ["edge", rng.randint(0, 60)], ["mid", rng.randint(0, 60)], ["u", 0.0], ["u", 1.0]]) for _ in range(rng.randint(1, 9))]
        c["refresh"] = rng.choice([None, None, 0.5, 3])
        return c

    def check(c):
        sim = simulate(c["prog"], c["setup"])
        C08.queries(c, sim)
        if c.get("refresh"):      # another trajectory, perhaps with as many blocks
            for st in sim.states:
                st.state_p_settings.speed *= c["refresh"]
            with quiet():
                sim.refresh()
            C08.queries(c, sim)

    def queries(c, sim):
        from pyGCodeDecode.gcode_interpreter import find_current_segment

        segs = segs_of(sim)
        if not segs:
            return
        end = segs[-1].t_end
        ts = []
        for k, v in c["q"]:
            ts.append(end * v if k == "u" else segs[v % len(segs)].t_end if k == "edge" else (segs[v % len(segs)].t_begin + segs[v % len(segs)].t_end) / 2)
        for t in ts:
            k = next((i for i, s in enumerate(segs) if s.t_begin <= t <= s.t_end), None)
            if k is None:      # rounding gap between two segments
                continue
            s = segs[k]
            v, p = ref_at(s, t)
            with quiet():
                gv, gp = sim.get_values(t=t)
            scale = max(1.0, s.state_p if False else norm(v))
            need(vclose([float(x) for x in gp], p, 1e-7 * (1 + norm(p))), "position at t=%r is %s, exact %s", t, [float(x) for x in gp], p)
            need(vclose([float(x) for x in gv], v, 1e-7 * scale), "velocity at t=%r is %s, exact %s", t, [float(x) for x in gv], v)
            for keep in (False, True):
                for li in (None, 0, k, max(k - 1, 0), min(k + 1, len(segs) - 1), len(segs) // 2, len(segs) + 3):
                    with quiet():
                        s2, i2 = find_current_segment(path=segs, t=t, last_index=li, keep_position=keep)
                    need(s2 is s and i2 == k, "search for t=%r from index %s (keep_position=%s) ends at segment %s instead of %s", t, li, keep, i2, k)
            with quiet():
                sv, spn = p4(s.get_velocity(t=t)), p4(s.get_position(t=t))
            need(vclose(sv, v, 1e-7 * scale) and vclose(spn, p, 1e-7 * (1 + norm(p))), "segment query at t=%r: %s %s", t, sv, spn)
        for s in segs[:6]:
            for t in (s.t_begin - 1e-3, s.t_end + 1e-3):
                for f in (s.get_velocity, s.get_position):
                    try:
                        f(t=t)
                    except ValueError:
                        continue
                    need(False, "a segment of [%r, %r] answers for t=%r", s.t_begin, s.t_end, t)


class C09:
    def gen(rng):
        c = gen_prog(rng)
        c["unit"] = rng.choice(sorted(FACT))
        c["ask"] = rng.choice([None] + sorted(FACT))
        c["init"] = [rng.choice([0, 1, -2.5, round(rng.uniform(-9, 9), 3)]) for _ in range(4)]
        c["inunit"] = rng.choice([None] + sorted(FACT))
        c["tup"] = rng.random() < 0.5
        c["u"] = [rng.random() for _ in range(3)]
        c["bad"] = rng.choice(["mm", "", "si", "INCH", "m"])
        return c

    def check(c):
        from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

        sim = simulate(c["prog"], c["setup"], c["unit"])
        f = FACT[c["ask"] or c["unit"]]
        segs = segs_of(sim)
        kw = {"output_unit_system": c["ask"]}
        if segs:
            for u in c["u"]:
                t = u * segs[-1].t_end
                s = next((s for s in segs if s.t_begin <= t <= s.t_end), None)
                if s is None:
                    continue
                v, p = ref_at(s, t)
                with quiet():
                    gv, gp = sim.get_values(t, **kw)
                tol = 1e-7 * f
                need(vclose([float(x) for x in gv], [f * x for x in v], tol * (1 + norm(v))), "velocity %s in %s/%s, internal %s", gv, c["unit"], c["ask"], v)
                need(vclose([float(x) for x in gp], [f * x for x in p], tol * (1 + norm(p))), "position %s in %s/%s, internal %s", gp, c["unit"], c["ask"], p)
            path = os.path.join(scratch(), "ev.inp")
            with quiet():
                ev = generate_abaqus_event_series(sim, path, output_unit_system=c["ask"])
            pts = [p4(segs[0].pos_begin)] + [p4(s.pos_end) for s in segs]
            for e, p in zip(ev, pts):
                need(vclose([float(x) for x in e[1:4]], [f * x for x in p[:3]], 1e-9 * f * (1 + norm(p))), "event %s in %s/%s, internal %s", e, c["unit"], c["ask"], p)
        if any(b.is_extruding for b in sim.blocklist):
            with quiet():
                a, b = np.asarray(sim.extrusion_extent(**kw)), np.asarray(sim.extrusion_extent(output_unit_system="SImm"))
                m, n = float(sim.extrusion_max_vel(**kw)), float(sim.extrusion_max_vel(output_unit_system="SImm"))
            need(np.allclose(a, f * b, rtol=1e-9, atol=1e-12), "extent %s in %s/%s, in millimetres %s", a, c["unit"], c["ask"], b)
            need(close(m, f * n, 1e-9 * (1 + n)), "maximum velocity %r in %s/%s, in mm/s %r", m, c["unit"], c["ask"], n)
        # initial position
        from base import mk_setup

        s = mk_setup(c["setup"])
        pos = tuple(c["init"]) if c["tup"] else dict(zip("XYZE", c["init"]))
        s.set_initial_position(pos, input_unit_system=c["inunit"])
        g = 1 / FACT[c["inunit"] or "SImm"]
        d = s.get_dict()
        need(vclose([d[k] for k in "XYZE"], [g * x for x in c["init"]], 1e-9 * g * (1 + norm(c["init"]))), "initial position %s in %s stored as %s", c["init"], c["inunit"], [d[k] for k in "XYZE"])
        for bad in (lambda: simulate(c["prog"], c["setup"], c["bad"]), lambda: s.set_initial_position(pos, input_unit_system=c["bad"]),
                    lambda: sim.get_scaling_factor(c["bad"]), lambda: s.get_scaling_factor(c["bad"])):
            try:
                bad()
            except (ValueError, KeyError):
                continue
            need(False, "unknown unit system %r is accepted", c["bad"])


class C10:
    def gen(rng):
        c = gen_prog(rng)
        c["unit"] = rng.choice(sorted(FACT))
        c["tol"] = rng.choice([None, None, 0.01, 0.5])
        return c

    def check(c):
        from pyGCodeDecode.abaqus_file_generator import generate_abaqus_event_series

        sim = simulate(c["prog"], c["setup"], c["unit"])
        segs = segs_of(sim)
        if not segs:
            return
        before = [(s.t_begin, s.t_end, p4(s.pos_begin), p4(s.pos_end), p4(s.vel_begin), p4(s.vel_end)) for s in segs]
        path = os.path.join(scratch(), "sub", "events.inp")
        kw = {} if c["tol"] is None else {"tolerance": c["tol"]}
        with quiet():
            ev = generate_abaqus_event_series(sim, path, **kw)
        tol = 1e-12 if c["tol"] is None else c["tol"]
        f = FACT[c["unit"]]
        pts = [before[0][2]] + [b[3] for b in before]
        ts = [0.0] + [b[1] for b in before]
        need(len(ev) == len(pts), "%d events for %d segments", len(ev), len(segs))
        rows = open(path).read().splitlines()
        need(len(rows) == len(ev), "%d rows in the file, %d events", len(rows), len(ev))
        for k, (e, p, t, row) in enumerate(zip(ev, pts, ts, rows)):
            need(float(e[0]) == t, "event %d at time %r instead of %r", k, e[0], t)
            need(vclose([float(x) for x in e[1:4]], [f * x for x in p[:3]], 1e-9 * (1 + norm(p))), "event %d at %s instead of %s (scaled by %r)", k, e[1:4], p[:3], f)
            if k + 1 < len(pts):
                d = pts[k + 1][3] - p[3]
                if abs(d - tol) > 1e-15:
                    need(float(e[4]) == (1 if d > tol else 0), "event %d has extrusion flag %r, the extrusion coordinate changes by %r", k, e[4], d)
            else:
                need(float(e[4]) == 0, "last event has extrusion flag %r", e[4])
            r = [float(x) for x in row.split(",")]
            need(len(r) == 5 and close(r[0], float(e[0]), 1e-9 * (1 + abs(r[0]))) and vclose(r[1:4], [float(x) for x in e[1:4]], 0.6e-8) and r[4] == float(e[4]), "row %d of the file is %s, event is %s", k, row, e)
            for x in r[1:4]:
                need(close(x, round(x, 8), 1e-12 * (1 + abs(x))), "row %d is not rounded: %s", k, row)
        after = [(s.t_begin, s.t_end, p4(s.pos_begin), p4(s.pos_end), p4(s.vel_begin), p4(s.vel_end)) for s in segs_of(sim)]
        need(before == after, "generating the event series changes the trajectory")
        with quiet():
            ev2 = generate_abaqus_event_series(sim, path, **kw)
        need(ev2 == ev, "a second event series differs")


class C11:
    def gen(rng):
        c = gen_prog(rng)
        if rng.random() < 0.9:
            c["setup"]["layer_cue"] = CUE
        for _ in range(rng.randint(0, 4)):
            c["prog"].insert(rng.randint(0, len(c["prog"])), {"cmds": [], "comment": CUE})
        c["file"] = rng.random() < 0.6
        return c

    def check(c):
        from pyGCodeDecode.tools import save_layer_metrics

        sim = simulate(c["prog"], c["setup"])
        path = os.path.join(scratch(), "m.csv")
        if os.path.exists(path):
            os.unlink(path)
        with quiet():
            r = save_layer_metrics(sim, filepath=path if c["file"] else None, locale="C")
        if "layer_cue" not in c["setup"]:
            need(r is None and not os.path.exists(path), "metrics are reported without a layer cue")
            return
        layers, dur, dist, avg = r
        segs = segs_of(sim)
        groups = {}
        for b in sim.blocklist:
            groups.setdefault(b.state_B.layer, []).append(b)
        exp = sorted(groups)
        if exp and exp[0] != 0:
            need(list(layers) in (exp, [0] + exp), "layers %s instead of %s", layers, exp)
            if list(layers) == [0] + exp:
                groups[0] = []
                exp = [0] + exp
        need(list(layers) == exp, "layers %s instead of %s", layers, exp)
        begins = [groups[l][0].get_segments()[0].t_begin if groups[l] else 0.0 for l in exp] + [segs[-1].t_end if segs else 0.0]
        begins[0] = 0.0
        for k, l in enumerate(exp):
            d = begins[k + 1] - begins[k]
            x = sum(norm([q - p for p, q in zip(p4(b.state_A.state_position)[:3], p4(b.state_B.state_position)[:3])]) if b.state_A is not None else 0.0 for b in groups[l])
            need(close(dur[k], d, 1e-9 * (1 + begins[-1])), "layer %s lasts %r instead of %r", l, dur[k], d)
            need(close(dist[k], x, 1e-9 * (1 + x)), "layer %s travels %r instead of %r", l, dist[k], x)
            if dur[k] > 1e-9:
                need(close(float(avg[k]), x / dur[k], 1e-9 * (1 + abs(x / dur[k]))), "layer %s: average speed %r instead of %r", l, avg[k], x / dur[k])
        if c["file"]:
            rows = open(path).read().splitlines()
            need(len(rows) == len(exp) + 1, "csv has %d rows for %d layers", len(rows), len(exp))
            for k, row in enumerate(rows[1:]):
                q = [s.strip() for s in row.split(";")]
                need(len(q) == 4 and float(q[0]) == exp[k] and close(float(q[1]), dur[k], 1e-6 * (1 + abs(dur[k]))) and close(float(q[2]), dist[k], 1e-6 * (1 + dist[k])), "csv row %s, metrics %s", row, (exp[k], dur[k], dist[k], avg[k]))


class C12:
    def gen(rng):
        c = gen_prog(rng)
        c["unit"] = rng.choice(sorted(FACT))
        return c

    def check(c):
        import yaml

        sim = simulate(c["prog"], c["setup"], c["unit"])
        f = FACT[c["unit"]]
        pts, vel = [], []
        for b in sim.blocklist:
            if b.state_A is None:
                continue
            A, B = p4(b.state_A.state_position), p4(b.state_B.state_position)
            if B[3] > A[3]:
                pts += [A[:3], B[:3]]
                m = [max(abs(x) for s in b.get_segments() for x in (p4(s.vel_begin)[k], p4(s.vel_end)[k])) for k in range(3)]
                vel.append(norm(m))
        if not pts:
            for g in (lambda: sim.extrusion_extent(),):
                try:
                    with quiet():
                        r = g()
                except ValueError:
                    continue
                need(False, "extent %s although nothing is extruded", r)
            return
        with quiet():
            ext, mv = np.asarray(sim.extrusion_extent()), float(sim.extrusion_max_vel())
        lo, hi = [f * min(p[k] for p in pts) for k in range(3)], [f * max(p[k] for p in pts) for k in range(3)]
        need(vclose([float(x) for x in ext[0]], lo, 1e-9 * (1 + norm(lo))) and vclose([float(x) for x in ext[1]], hi, 1e-9 * (1 + norm(hi))), "extent %s instead of %s %s", ext.tolist(), lo, hi)
        need(close(mv, f * max(vel), 1e-9 * (1 + mv)), "maximum extrusion velocity %r instead of %r", mv, f * max(vel))
        path = os.path.join(scratch(), "s.yaml")
        with quiet():
            sim.save_summary(path)
        d = yaml.safe_load(open(path))
        exp = {"t_end": segs_of(sim)[-1].t_end, "max_extrusion_travel_velocity": f * max(vel)}
        for k in range(3):
            exp["xyz"[k] + "_min"], exp["xyz"[k] + "_max"] = lo[k], hi[k]
        for k, v in exp.items():
            need(k in d and close(d[k], v, 1e-9 * (1 + abs(v))), "summary states %s = %r instead of %r", k, d.get(k), v)


def reach_time(b, x):
    """Time at which the block's motion has covered x (reference by integrating the phases)."""
    c = 0.0
    for s in b.get_segments():
        v0, v1, T = norm(p4(s.vel_begin)[:3]), norm(p4(s.vel_end)[:3]), s.t_end - s.t_begin
        L = (v0 + v1) / 2 * T
        if x <= c + L + 1e-12:
            lo, hi = 0.0, T
            for _ in range(200):
                m = (lo + hi) / 2
                if (v0 * m + (v1 - v0) / T * m * m / 2 if T > 0 else 0) < x - c:
                    lo = m
                else:
                    hi = m
            return s.t_begin + hi
        c += L
    return b.get_segments()[-1].t_end


class C13:
    def gen(rng):
        c = gen_prog(rng)
        c["u"] = [rng.choice([0.0, 1.0, rng.random(), rng.random(), rng.random()]) for _ in range(4)]
        c["box"] = [rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(-3, 3), rng.uniform(0.5, 30), rng.uniform(0.5, 30), rng.uniform(0.5, 30)]
        if rng.random() < 0.15:
            c["box"][0] += 500
        return c

    def FIXED():
        return [{"phases": ph} for ph in ([[1, 0, 2], [2, 2, 2], [1, 2, 0]], [[2, 2, 2]], [[4, 4, 0.5], [1, 4, 2]],
                                          [[0.5, 0, 8], [0.25, 8, 4], [2, 4, 4]])]

    def exact(phases):
        """A block of given phases (duration, speed at begin, speed at end), all numbers exact: every boundary instant."""
        from pyGCodeDecode.planner_block import planner_block
        from pyGCodeDecode.utils import position, segment, velocity

        t = x = 0.0
        segs, marks = [], [(0.0, 0.0)]
        for d, v, w in phases:
            n = x + d * (v + w) / 2
            segs.append(segment(t, t + d, position(x, 0, 0, 0), velocity(v, 0, 0, 0), position(n, 0, 0, 0), velocity(w, 0, 0, 0)))
            t, x = t + d, n
            if v + w:
                marks.append((x, t))
        b = planner_block.__new__(planner_block)
        b.segments = segs
        for x, t in marks:
            with quiet():
                got = float(b.inverse_time_at_pos(x))
            need(close(got, t, 1e-9), "distance %r of phases %s at t=%r, the motion is there at %r", x, phases, got, t)

    def check(c):
        from pyGCodeDecode.tools import write_submodel_times

        if "phases" in c:
            return C13.exact(c["phases"])
        sim = simulate(c["prog"], c["setup"])
        if not sim.blocklist:
            return
        for b in sim.blocklist:
            L = norm([y - x for x, y in zip(p4(b.state_A.state_position)[:3], p4(b.state_B.state_position)[:3])]) if b.state_A else 0
            if L < 1e-6:
                continue
            segs = [s for s in b.get_segments() if norm([q - p for p, q in zip(p4(s.pos_begin), p4(s.pos_end))]) > 0]
            vmax = max(norm(p4(s.vel_begin)[:3]) + norm(p4(s.vel_end)[:3]) for s in segs)
            a = b.state_B.state_p_settings.p_acc
            tol = 1e-6 * (1 + segs[-1].t_end) + 3 * math.sqrt(2e-11 * (1 + L) / a)
            for u in c["u"]:
                x = min(u * L, L * (1 - 1e-12))
                with quiet():
                    t = float(b.inverse_time_at_pos(x))
                r = reach_time(b, x)
                need(close(t, r, tol), "distance %r of %r in the block of line %s at t=%r, the motion is there at %r", x, L, b.state_B.line_number, t, r)
            try:
                with quiet():
                    b.inverse_time_at_pos(L * 1.001 + 1e-6)
            except ValueError:
                pass
            else:
                need(False, "a distance beyond the block is accepted")
        # submodel
        o, len3 = c["box"][:3], c["box"][3:]
        lo, hi = [m - l / 2 for m, l in zip(o, len3)], [m + l / 2 for m, l in zip(o, len3)]
        ins, outs = [], []
        tiny = 1e-5
        for b in sim.blocklist:
            if b.state_A is None:
                continue
            A, B = p4(b.state_A.state_position)[:3], p4(b.state_B.state_position)[:3]
            L = norm([y - x for x, y in zip(A, B)])
            if L == 0:
                continue
            for k in range(3):
                for face, sg in ((lo[k], 1), (hi[k], -1)):
                    dk = B[k] - A[k]
                    if abs(A[k] - face) < tiny or abs(B[k] - face) < tiny:
                        return          # touching: no proper crossing
                    if (A[k] < face) == (B[k] < face):
                        continue
                    fr = (face - A[k]) / dk
                    q = [x + fr * (y - x) for x, y in zip(A, B)]
                    rest = [j for j in range(3) if j != k]
                    if any(abs(q[j] - e) < tiny for j in rest for e in (lo[j], hi[j])):
                        return          # through an edge
                    if all(lo[j] < q[j] < hi[j] for j in rest):
                        (ins if sg * dk > 0 else outs).append(reach_time(b, fr * L))
        path = os.path.join(scratch(), "t.yaml")
        with quiet():
            r = write_submodel_times(sim, o, *len3, filename=path, note="n")
        ins.sort()
        outs.sort()
        end = segs_of(sim)[-1].t_end
        tl = 1e-5 * (1 + end)
        need(vclose(list(r["time_in"]), ins, tl), "entries %s instead of %s", r["time_in"], ins)
        need(vclose(list(r["time_out"]), outs, tl), "exits %s instead of %s", r["time_out"], outs)
        need(r["n_filaments"] == len(ins), "%r entries counted, %d listed", r["n_filaments"], len(ins))
        need(close(r["time_process"], end, 1e-9 * (1 + end)), "process time %r instead of %r", r["time_process"], end)
        need(list(r["time_in"]) == sorted(r["time_in"]) and list(r["time_out"]) == sorted(r["time_out"]), "times are not in increasing order")
        import yaml

        d = yaml.safe_load(open(path))
        need(d.get("time_in") == list(r["time_in"]) and d.get("time_out") == list(r["time_out"]) and d.get("n_filaments") == r["n_filaments"] and d.get("note") == "n", "the file %s differs from the result %s", d, r)


REQ = ["p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "X", "Y", "Z", "E", "printer_name", "firmware"]
OPT = ["layer_cue", "nozzle_diam", "filament_diam"]


def byname(g, expect):
    """A simulation without a setup takes the named printer of the default presets."""
    import yaml
    import pyGCodeDecode
    from pyGCodeDecode.gcode_interpreter import simulation

    with open(os.path.join(os.path.dirname(pyGCodeDecode.__file__), "data", "default_printer_presets.yaml")) as f:
        presets = yaml.safe_load(f)
    expect(False, lambda: simulation(gcode_path=g), "a simulation without a setup and a name")
    expect(False, lambda: simulation(gcode_path=g, machine_name="no such printer"), "a simulation of an unknown printer")
    for n, p in list(presets.items())[:2]:
        if not all(k in p for k in REQ if k not in ("X", "Y", "Z", "E", "printer_name")):
            continue
        sim = expect(True, lambda: simulation(gcode_path=g, machine_name=n), "a simulation of %r" % n)
        want = {**p, "X": 0, "Y": 0, "Z": 0, "E": 0, "printer_name": n}
        need(dict(sim.initial_machine_setup) == want, "the setup of %r is %s instead of %s", n, sim.initial_machine_setup, want)


class C14:
    def gen(rng):
        base = {"p_vel": 35, "p_acc": 100, "jerk": 3, "vX": 1, "vY": 2, "vZ": 3, "vE": 4, "firmware": "MKA"}
        presets = {}
        for n in rng.sample(["a", "b", "c", "dd", "aa"], rng.randint(1, 3)):
            p = {k: (v if k == "firmware" else v + rng.randint(0, 3)) for k, v in base.items() if rng.random() < 0.95}
            if rng.random() < 0.15:
                p[rng.choice(["nozzle_diam", "filament_diam", "nozle", "P_vel", "x", "diam", "cue", "vel", "jerk_", "units", "", "X "])] = 0.4
            if rng.random() < 0.2:      # keys which are laid over the preset
                p.update(rng.choice([{"X": 5}, {"Z": 1, "E": 2}, {"layer_cue": "OWN"}, {"printer_name": "other"}, {"Y": -1, "layer_cue": "OWN"}]))
            presets[n] = p
        ops = []
        for _ in range(rng.randint(0, 6)):
            ops.append(rng.choice([
                lambda: ["select", rng.choice(["a", "b", "c", "dd", "zz", "aa"])],
                lambda: ["prop", {rng.choice(["p_vel", "jerk", "firmware", "layer_cue", "p_vell", "nozzle_diam", "vX"]): rng.choice([1, 5, 7])}],
                lambda: ["init", rng.choice([[1, 2, 3, 4], [0.5, 0, -1, 2], [1, 2, 3]]), rng.random() < 0.5],
                lambda: ["initd", {k: rng.randint(-3, 3) for k in rng.sample("XYZE", rng.choice([4, 4, 3]))}],
            ])())
        return {"presets": presets, "printer": rng.choice([None, "a", "b", "a", "zz", "aa"]), "cue": rng.choice([None, None, "CUE"]), "ops": ops,
                "name": rng.choice([None, "a", "b", "aa"]), "unit": rng.choice(["SImm", "SI", "inch", "bad", None])}

    def check(c):
        import yaml
        from pyGCodeDecode.gcode_interpreter import setup, simulation

        p = os.path.join(scratch(), "p.yaml")
        with open(p, "w") as f:
            yaml.dump(c["presets"], f)

        def expect(ok, fn, w):
            try:
                with quiet():
                    r = fn()
            except (ValueError, KeyError) as e:
                need(not ok, "%s is rejected: %s", w, e)
                return None
            need(ok, "%s is accepted", w)
            return r

        known = c["presets"]
        if c["printer"] is not None and c["printer"] not in known:
            expect(False, lambda: setup(presets_file=p, printer=c["printer"], layer_cue=c["cue"]), "unknown printer %r" % c["printer"])
            return
        if c["printer"] is not None and "firmware" not in known[c["printer"]]:
            return
        with quiet():
            s = setup(presets_file=p, printer=c["printer"], layer_cue=c["cue"])
        model, sel, init = copy.deepcopy(known), c["printer"], {k: 0 for k in "XYZE"}
        touched = []
        for op in c["ops"]:
            if op[0] == "select":
                ok = op[1] in known
                expect(ok, lambda: s.select_printer(op[1]), "selecting printer %r of %s" % (op[1], sorted(known)))
                if ok:
                    sel = op[1]
            elif op[0] == "prop":
                expect(sel is not None, lambda: s.set_property(dict(op[1])), "setting a property %s" % ("" if sel else "without a selected printer"))
                if sel is not None:
                    model[sel].update(op[1])
            elif op[0] == "init":
                v = tuple(op[1]) if op[2] else list(op[1])
                ok = op[2] and len(op[1]) == 4
                if not op[2] and len(op[1]) == 4:
                    continue        # lists are neither promised nor excluded
                expect(ok, lambda: s.set_initial_position(v), "initial position %r" % (v,))
                if ok:
                    init = dict(zip("XYZE", op[1]))
            else:
                ok = len(op[1]) == 4
                expect(ok, lambda: s.set_initial_position(dict(op[1])), "initial position %r" % (op[1],))
                if ok:
                    init = dict(op[1])
            if sel is not None:
                touched.append(sel)
        if sel is None:
            return
        exp = dict(model[sel])
        exp.update(init)
        if c["cue"] is not None:
            exp["layer_cue"] = c["cue"]
        exp["printer_name"] = sel
        got = dict(s.get_dict())
        need(got == exp, "setup dictionary is %s instead of %s", got, exp)
        got2 = dict(s.get_dict())
        need(got2 == exp, "second query of the setup dictionary is %s", got2)
        from base import gcode_file

        valid = all(k in exp for k in REQ) and all(k in REQ + OPT for k in exp)
        u = c["unit"] or "SImm"
        ok = valid and u in FACT and (c["name"] is None or c["name"] == sel)
        g = gcode_file("G1 X1 F600\n")
        if c["name"] is None and u in FACT:
            byname(g, expect)
        if exp.get("firmware") not in ("MKA",):
            return
        expect(ok, lambda: simulation(gcode_path=g, machine_name=c["name"], initial_machine_setup=s, output_unit_system=u), "simulation with setup %s, name %r, unit %r" % (exp, c["name"], u))
        if u in FACT:
            sim = simulation.__new__(simulation)
            expect(valid, lambda: sim.check_initial_setup(dict(exp)), "setup %s" % exp)
            for k in list(exp):
                d = {x: y for x, y in exp.items() if x != k}
                expect(all(q in d for q in REQ) and all(q in REQ + OPT for q in d), lambda: sim.check_initial_setup(d), "setup without %s" % k)


class C16:
    def gen(rng):
        def comp():
            return rng.choice([0, 0, 1, -1, 3, 4, 0.5, -2.25, round(rng.uniform(-50, 50), 3), 1e-3])
        v = [comp() for _ in range(4)]
        w = list(v) if rng.random() < 0.3 else [comp() for _ in range(4)]
        if rng.random() < 0.3:
            w[rng.randint(0, 3)] = comp()
        return {"v": v, "w": w, "kind": rng.choice(["position", "velocity"]), "form": rng.choice(["same", "list", "tuple", "array"]),
                "k": rng.choice([1, -1, 2, 3, 0.5, -2.5, 7, 0, 1e-3]), "kt": rng.choice(["int", "float", "np"])}

    def check(c):
        import pyGCodeDecode.utils as U

        K = getattr(U, c["kind"])
        v, w = [float(x) for x in c["v"]], [float(x) for x in c["w"]]
        a, b = K(*v), K(*w)
        o = {"same": b, "list": list(w), "tuple": tuple(w), "array": np.asarray(w)}[c["form"]]
        tol = 1e-9 * (1 + norm(v) + norm(w))

        def res(r, exp, what, new=True):
            need(type(r) is K, "%s gives a %s", what, type(r).__name__)
            need(r is not a and r is not b, "%s returns an operand", what)
            need(vclose(p4(r), exp, tol * 10), "%s gives %s instead of %s", what, p4(r), exp)
            need(p4(a) == v and p4(b) == w and [float(x) for x in (o.get_vec(withExtrusion=True) if o is b else o)] == w, "%s modifies an operand", what)

        res(a + o, [x + y for x, y in zip(v, w)], "addition (%s)" % c["form"])
        res(a - o, [x - y for x, y in zip(v, w)], "subtraction (%s)" % c["form"])
        k = int(c["k"]) if c["kt"] == "int" else np.float64(c["k"]) if c["kt"] == "np" else float(c["k"])
        kf = float(k)
        res(a * k, [x * kf for x in v], "multiplication by %r" % (k,))
        if kf != 0:
            res(a / k, [x / kf for x in v], "division by %r" % (k,))
        for form in (list, tuple, np.asarray):
            x = K(form(v))
            need(type(x) is K and p4(x) == v, "%s of a %s is %s", c["kind"], form.__name__, p4(x))
        need(close(float(a.get_norm()), norm(v[:3]), tol), "norm is %r", a.get_norm())
        need(close(float(a.get_norm(withExtrusion=True)), norm(v), tol), "4D norm is %r", a.get_norm(withExtrusion=True))
        need(vclose([float(x) for x in a.get_vec()], v[:3], 0) and vclose(p4(a), v, 0), "get_vec gives %s", a.get_vec())
        if c["kind"] == "position":
            d = [x - y for x, y in zip(v, w)]
            need(close(float(a.get_t_distance(b)), norm(d[:3]), tol), "distance is %r instead of %r", a.get_t_distance(b), norm(d[:3]))
            need(close(float(a.get_t_distance(b, withExtrusion=True)), norm(d), tol), "4D distance is %r", a.get_t_distance(b, withExtrusion=True))
            need(close(float(a.get_t_distance()), norm(v[:3]), tol), "distance to the origin is %r", a.get_t_distance())
            need(close(float(a.get_t_distance(withExtrusion=True)), norm(v), tol), "4D distance to the origin is %r", a.get_t_distance(withExtrusion=True))
            need(bool(a.is_travel(b)) == any(x != 0 for x in d[:3]), "is_travel gives %r for difference %s", a.is_travel(b), d)
            need(bool(a.is_extruding(b)) == (w[3] > v[3]), "is_extruding gives %r from e=%r to e=%r", a.is_extruding(b), v[3], w[3])
            need(bool(a.is_extruding(b, ignore_retract=False)) == (w[3] != v[3]), "is_extruding with retracts gives %r from e=%r to e=%r", a.is_extruding(b, ignore_retract=False), v[3], w[3])
        else:
            need(bool(a.is_extruding()) == (v[3] > 0), "is_extruding gives %r for %s", a.is_extruding(), v)
            need(bool(a.not_zero()) == any(v), "not_zero gives %r for %s", a.not_zero(), v)
            n3 = norm(v[:3])
            for we in (False, True):
                r = a.get_norm_dir(withExtrusion=we)
                vec = v if we else v[:3]
                if n3 > 0:
                    e = [x / n3 for x in vec]
                elif v[3] != 0 and we:
                    e = [x / abs(v[3]) for x in vec]
                elif v[3] != 0:
                    continue
                else:
                    need(r is None, "direction of zero is %r", r)
                    continue
                need(r is not None and vclose([float(x) for x in r], e, 1e-9 * (1 + norm(e))), "direction of %s is %s", v, r)
        for other, what in ((b, "vector"), (o, c["form"])):
            if what == "array":
                eq = a.__eq__(other)
            else:
                eq = a == other
            if v == w:
                need(bool(eq), "equal vectors %s compare unequal (%s)", v, what)
            if any(abs(x - y) > 1e-7 + 1e-4 * abs(y) for x, y in zip(v, w)):
                need(not eq, "%s == %s (%s)", v, w, what)


class C17:
    def gen(rng):
        c = gen_prog(rng)
        c["unit"] = rng.choice(sorted(FACT))
        c["u"] = [rng.random() for _ in range(5)]
        c["h"], c["d"] = rng.choice([0.1, 0.2, 1, rng.uniform(0.05, 2)]), rng.choice([1.75, 2.85, 1])
        return c

    def check(c):
        sim = simulate(c["prog"], c["setup"], c["unit"])
        segs = segs_of(sim)
        if not segs:
            return
        f = FACT[c["unit"]]
        for u in c["u"]:
            t = u * segs[-1].t_end
            s = next((s for s in segs if s.t_begin <= t <= s.t_end), None)
            if s is None:
                continue
            v, _ = ref_at(s, t)
            n = norm(v[:3])
            if 0 < n < 1e-6 * max(1, s.vel_begin.get_norm(), s.vel_end.get_norm()):
                continue
            with quiet():
                w = float(sim.get_width(t, c["h"], c["d"]))
            if n == 0:
                need(w == 0, "width %r although the nozzle stands still", w)
                continue
            lhs, rhs = w * c["h"] * n * f, math.pi * c["d"] ** 2 / 4 * v[3] * f
            need(close(lhs, rhs, 1e-6 * (abs(rhs) + f * n * 1e-3)), "at t=%r: width*height*speed = %r, filament flow = %r", t, lhs, rhs)


ORACLES = {f"C{n:02d}": globals()[f"C{n:02d}"] for n in (8, 9, 10, 11, 12, 13, 14, 16, 17)}
