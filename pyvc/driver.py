"""Parallel execution of units and discharge of their obligations."""

import multiprocessing as mp
import os
import time

from . import smt
from .unit import run_unit

NPROC = min(8, os.cpu_count() or 2)


def _job(args):
    modname, idx, quick_ms, long_ms, repo, part, limit, alt = args
    import importlib

    m = importlib.import_module(modname)
    return run_unit(m.units()[idx], quick_ms, long_ms, repo, part, limit, alt)


def _child(conn, args, careful):
    from . import interp

    interp.CAREFUL[0] = careful
    conn.send(_job(args))
    conn.close()


def run_jobs(jobs, names, limit, deadline=None):
    """Every job in a process of its own; a job whose process dies is repeated with more careful solver settings.

    After the deadline (time.time()) nothing is begun or awaited.
    """
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = [(n, 0) for n in range(len(jobs))][::-1]
    live, out, t0 = {}, {}, {}
    while todo or live:
        late = deadline is not None and time.time() > deadline
        while todo and len(live) < NPROC:
            n, careful = todo.pop()
            if late:
                out[n] = failed(names[n], "no time left for its symbolic execution")
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, jobs[n], careful), daemon=True)
            p.start()
            b.close()
            live[a] = (p, n, careful, time.time())
        for c in wait(list(live), 5) if live else []:
            p, n, careful, t = live.pop(c)
            try:
                out[n] = c.recv()
            except EOFError:
                p.join()
                if careful < 2:
                    todo.append((n, careful + 1))
                else:
                    out[n] = failed(names[n], "the solver ignored its limits")
            c.close()
            p.join()
        for c, (p, n, careful, t) in list(live.items()):
            if limit and time.time() - t > 2 * limit + 60 or deadline is not None and time.time() > deadline + 15:
                p.kill()
                p.join()
                live.pop(c)
                c.close()
                out[n] = failed(names[n], f"symbolic execution not finished within {round(time.time() - t)} s")
    return [out[n] for n in range(len(jobs))]


def failed(name, why):
    from .unit import UnitResult

    r = UnitResult(name)
    r.error = ("unsupported", why)
    return r


def run_units(modname, quick_ms, long_ms, repo=None, only=None, limit=None, alt=0, names=None, deadline=None):
    import importlib

    m = importlib.import_module(modname)
    us = m.units()
    jobs = []
    for i, u in enumerate(us):
        if (only is None or only in u.name) and (names is None or u.name in names) and (not alt or len(u.alts) >= alt):
            jobs += [(i, k) for k in range(u.parts)]
    if not jobs:
        return []
    jobs.sort(key=lambda j: -us[j[0]].parts)
    rs = run_jobs([(modname, i, quick_ms, long_ms, repo, k, limit, alt) for i, k in jobs], [us[i].name for i, _ in jobs], limit, deadline)
    out, by = [], {}
    for (i, k), r in sorted(zip(jobs, rs), key=lambda x: x[0]):
        if i not in by:
            by[i] = r
            out.append(r)
        else:
            q = by[i]
            seen = {(o["name"], o["hash"]) for o in q.obls}
            q.obls += [o for o in r.obls if (o["name"], o["hash"]) not in seen]
            q.covers += r.covers
            q.paths += r.paths
            q.ends += r.ends
            q.time = max(q.time, r.time)
            q.error = q.error or r.error
            q.executed = sorted(set(q.executed) | set(r.executed))
            q.assumed = sorted(set(q.assumed) | set(r.assumed))
    return out


def solve(results, order, solve_limit):
    flat, keys = [], {}
    for r in results:
        for o in r.obls:
            if not o["trivial"]:
                if o["hash"] not in keys:
                    keys[o["hash"]] = len(flat)
                    flat.append(o)
    hints = {i: (order or {}).get(o["hash"]) for i, o in enumerate(flat)}
    verdicts = smt.discharge([o["plan"] for o in flat], hints, stop_after=solve_limit)
    for r in results:
        for o in r.obls:
            if not o["trivial"]:
                o["verdict"] = verdicts[keys[o["hash"]]]


def verified(r):
    return not r.error and all(o["trivial"] or o["verdict"].status == "proved" for o in r.obls)


def verify(modname, quick_ms=3000, long_ms=20000, repo=None, only=None, order=None, limit=None, solve_limit=None, total=None):
    """total: seconds for all the symbolic execution (the obligations of what was finished are discharged afterwards)."""
    t0 = time.time()
    deadline = t0 + total if total else None
    results = run_units(modname, quick_ms, long_ms, repo, only, limit, deadline=deadline)
    t1 = time.time()
    solve(results, order, solve_limit)
    for alt in (1, 2, 3):      # other invariants for the loops of units which are not proved
        bad = {r.name for r in results if not verified(r)}
        if deadline is not None and time.time() > deadline:
            break
        again = run_units(modname, quick_ms, long_ms, repo, only, limit, alt, bad, deadline) if bad else []
        if not again:
            break
        solve(again, order, solve_limit)
        new = {r.name: r for r in again if verified(r)}
        results = [new.get(r.name, r) for r in results]
    # reachability of the post-states
    cov = []
    for r in results:
        for c in r.covers:
            cov.append((r, c))
    plans = [[("z3", c, 1500, True), ("z3-nlsat", c, 1500, True)] for _, c in cov]
    vs = smt.discharge(plans)
    for (r, _), v in zip(cov, vs):
        r.__dict__.setdefault("cover_status", []).append({"refuted": "reachable", "proved": "unreachable"}.get(v.status, "unknown"))
    return results, {"symbolic_s": t1 - t0, "solve_s": time.time() - t1}
