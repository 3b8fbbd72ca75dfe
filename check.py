#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current working tree.

1. The real functions are read from /repo, executed symbolically against their contracts (contracts/), and every
   obligation is given to the solvers.
2. The same property is searched on the real code under CPython (replay/), as a cross-check of the verifier and to
   turn failed obligations into failing inputs.
"""

import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
if os.environ.get("PYTHONHASHSEED") != "0" or not sys.executable.startswith("/opt/veriftools"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(VT if os.path.exists(VT) else sys.executable, [VT, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from contracts.registry import PROPERTIES  # noqa: E402
from pyvc import driver  # noqa: E402

REPO = os.environ.get("PYVC_REPO", "/repo")
CPY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
TIERS = {
    # solver quick/long ms, symbolic limit s, solve limit s, search seconds, search procs, search seconds after a failed obligation,
    # seconds for all symbolic execution
    "quick": (3000, 10000, 240, 150, 14, 2, 60, 420),
    "thorough": (10000, 60000, 1500, 1800, 180, 6, 300, 7200),
}


def search(pid, seed, seconds, procs, tmp, tag, extra=None):
    ps = []
    for k in range(procs):
        out = os.path.join(tmp, f"{tag}{k}.json")
        cmd = [CPY, os.path.join(HERE, "replay", "run.py"), pid, "--seed", str(seed * 100 + k), "--seconds", str(seconds), "--out", out]
        if extra and k == 0:
            cmd += ["--extra", extra]
        ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), env={**os.environ, "PYVC_REPO": REPO, "TMPDIR": tmp}), out))
    return ps


def collect(ps, wait):
    """(first failing result or None, cases, crashed)"""
    bad, cases, crashed = None, 0, []
    t = time.time()
    for p, out in ps:
        try:
            p.wait(timeout=max(1, wait - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            d = json.load(open(out))
            cases += d["cases"]
            if d["message"] and bad is None:
                bad = d
        else:
            crashed.append(open(out + ".err").read()[-2000:])
    return bad, cases, crashed


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPERTIES[pid]
    quick_ms, long_ms, sym_limit, solve_limit, secs, procs, more, total = TIERS[tier]
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="pyvc_check_") as tmp:
        ps = search(pid, seed, secs, procs, tmp, "s")
        units, timing = [], {"symbolic_s": 0.0, "solve_s": 0.0}
        record = {}
        for m in P["modules"]:
            f = os.path.join(HERE, "proved", m + ".json")
            if os.path.exists(f):
                record.update(json.load(open(f)))
            rs, tm = driver.verify("contracts." + m, quick_ms, long_ms, REPO, order={k: v for k, v in record.items()}, limit=sym_limit, solve_limit=solve_limit, total=total)
            units += rs
            for k in tm:
                timing[k] += tm[k]
        bad, cases, crashed = collect(ps, secs + 60)
        return report(pid, tier, seed, P, units, timing, record, bad, cases, crashed, more, tmp, t0)


def replay_path(pid, content):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(content, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{pid}_{h}.json")
    with open(p, "w") as f:
        json.dump(content, f, indent=1)
    return p


def report(pid, tier, seed, P, units, timing, record, bad, cases, crashed, more, tmp, t0):
    nob = ndis = 0
    by, failed, recorded, undecided, dead, covers = {}, [], [], [], [], 0
    solver_t = 0.0
    for r in units:
        if r.error:
            undecided.append((r.name, r.error))
        for o in r.obls:
            nob += 1
            if o["trivial"]:
                ndis += 1
                by["normal form"] = by.get("normal form", 0) + 1
                continue
            v = o["verdict"]
            solver_t += v.time
            if v.status == "proved":
                ndis += 1
                by[v.backend] = by.get(v.backend, 0) + 1
            elif v.status == "unknown" and o["hash"] in record:
                recorded.append(o)
            else:
                failed.append((r, o))
        st = getattr(r, "cover_status", [])
        covers += sum(s == "reachable" for s in st)
        if not r.error and r.obls and st and all(s == "unreachable" for s in st):
            dead.append(r.name)
    # candidate inputs from the verifier's counterexamples
    if failed and bad is None:
        extra = []
        units_def = {}
        import importlib

        for m in P["modules"]:
            for u in importlib.import_module("contracts." + m).units():
                units_def[u.name] = u
        for r, o in failed:
            u = units_def.get(r.name)
            if u is not None and u.case is not None and o["verdict"].model:
                try:
                    c = u.case(o["verdict"].model)
                except Exception:  # noqa: BLE001
                    c = None
                if c is not None:
                    extra.append(c)
        ef = os.path.join(tmp, "extra.json")
        json.dump(extra[:50], open(ef, "w"))
        bad, n2, cr2 = collect(search(pid, seed + 1000, more, 8, tmp, "x", ef), more + 60)
        cases += n2
        crashed += cr2
    unsupported = undecided
    executed = sorted({f for r in units for f in r.executed})
    assumed = sorted({a for r in units for a in r.assumed})
    rc, line = 0, None
    if bad is not None:
        p = replay_path(pid, {**bad, "how": f"{CPY} {HERE}/replay/run.py {pid} --replay <this file>",
                              "failed_obligations": [o["name"] for _, o in failed][:20]})
        rc, line = 1, f"VIOLATION property={pid} replay={p}"
    elif failed:
        p = replay_path(pid, {"property": pid, "case": None, "failed_obligations": [
            {"name": o["name"], "function": o["where"], "status": o["verdict"].status, "goal": o["goal"], "model": str(o["verdict"].model)[:3000],
             "solver": [list(map(str, t)) for t in o["verdict"].tries]} for _, o in failed[:20]]})
        rc, line = 1, f"VIOLATION property={pid} replay={p} no-failing-input-found"
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "obligations": nob, "discharged": ndis, "backends": by, "solver_s": round(solver_t, 1),
            "symbolic_s": round(timing["symbolic_s"], 1), "checker_cmd": f"./check.py {pid} {tier}",
            "trusted_base": TRUSTED + P.get("trusted", []),
            "units": [{"unit": r.name, "obligations": len(r.obls), "paths": r.paths, "status": "unsupported: " + r.error[1][-300:] if r.error else "verified" if all(
                o["trivial"] or o["verdict"].status == "proved" for o in r.obls) else "not verified"} for r in units],
            "functions_under_contract": P.get("functions", []), "functions_executed": executed[:120],
            "assumed_contracts": assumed, "reachable_end_states_sampled": covers,
            "not_discharged_this_run_but_recorded": len(recorded),
            "bounded": P.get("bounded", []) + ([f"{n}: outside the verified subset ({e[1][-160:]}); only the concrete search stands in" for n, e in unsupported]),
            "evaluations": cases, "rule": "randomised and boundary-biased programs and values, run on the real code and judged by the property text (replay/)",
        },
        "assumptions": ASSUME + P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": rc,
    }
    if P["level"] != "proof":
        ev["coverage"]["explanation"] = P.get("explanation", "")
        ev["coverage"]["distinct_nontrivial"] = cases
        ev["coverage"]["samples"] = P.get("samples", [])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid}: {ndis}/{nob} obligations discharged {by}, {len(failed)} failed, {len(recorded)} recorded, {cases} concrete cases, {time.time() - t0:.0f} s")
    for n, e in unsupported:
        print(f"BOUNDED: {n}: {e[1][-300:]}")
    for _, o in failed[:20]:
        print(f"FAILED obligation [{o['verdict'].status}] {o['name']} @ {o['where']}")
    for l in open(os.path.join(HERE, "known_findings.txt")) if os.path.exists(os.path.join(HERE, "known_findings.txt")) else []:
        if l.startswith("finding: property=" + pid + " "):
            print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    if line:
        if bad is not None:
            print(bad["message"])
        print(line)
        return rc
    if not nob and P["modules"] and any(e[0] == "crash" for _, e in unsupported) or not nob and not unsupported and P["modules"]:
        print("no obligations were generated")
        return 2
    if dead:
        print("no end state is reachable in:", dead)
        return 2
    if not cases:
        print("the concrete search did not run:", *crashed)
        return 2
    return 0


TRUSTED = [
    "pyvc (symbolic execution and semantics of the Python subset, /verif/pyvc)", "z3", "cvc5",
    "models of Python built-ins, numpy and math functions (/verif/pyvc/lib.py)",
]
ASSUME = ["floating-point arithmetic is treated as exact real arithmetic in the proofs (the concrete search runs real floats)"]

if __name__ == "__main__":
    sys.exit(main())
