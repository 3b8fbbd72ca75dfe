"""Runs the concrete search of one property, or replays one recorded case.

run.py ID --seed N --seconds S [--max N] [--out FILE]     exit 0 clean, 1 violated (case written to FILE)
run.py ID --replay FILE                                   exit 1 if the recorded case fails
"""

import argparse
import json
import os
import random
import sys
import time
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")
import base  # noqa: E402


def oracle(pid):
    import importlib

    for m in ("c_motion", "c_states", "c_query"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name == m:
                continue
            raise
        if pid in mod.ORACLES:
            return mod.ORACLES[pid]
    return None


class Timeout(Exception):
    pass


def judge(o, case):
    """None or a message."""
    import signal

    def on(sig, frm):
        raise Timeout()

    signal.signal(signal.SIGALRM, on)
    signal.alarm(20)
    try:
        o.check(case)
        return None
    except base.Bad as e:
        return str(e)
    except Timeout:
        return "does not terminate within 20 s"
    except RecursionError:
        return "RecursionError"
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(base.REPO + os.sep)]
        where = inside[-1] if inside else tb[-1]
        if not inside and not isinstance(e, (AttributeError, TypeError, ImportError, ArithmeticError, LookupError, ValueError, FileNotFoundError, NameError)):
            raise
        return f"{'raises' if inside else 'interface:'} {type(e).__name__}: {str(e)[:200]} ({os.path.basename(where.filename)}:{where.lineno})"
    finally:
        signal.alarm(0)


def shrink(o, case, msg, seconds=8):
    """Drop program lines while the case still fails."""
    t = time.time()
    best = case
    if not isinstance(case, dict) or not isinstance(case.get("prog"), list):
        return case, msg
    changed = True
    while changed and time.time() - t < seconds:
        changed = False
        for i in range(len(best["prog"]) - 1, -1, -1):
            c = dict(best)
            c["prog"] = best["prog"][:i] + best["prog"][i + 1:]
            m = judge(o, c)
            if m:
                best, msg, changed = c, m, True
                break
    return best, msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--extra")
    a = ap.parse_args()
    o = oracle(a.pid)
    try:
        if a.replay:
            d = json.load(open(a.replay))
            if d.get("case") is None:
                print("no concrete case recorded")
                return 0
            m = judge(o, d["case"])
            print(("FAILS: " + m) if m else "passes")
            return 1 if m else 0
        rng = random.Random(a.seed * 7919 + sum(map(ord, a.pid)))
        t0, n, distinct = time.time(), 0, set()

        def cases():
            if a.extra and os.path.exists(a.extra):
                for c in json.load(open(a.extra)):
                    yield c
            yield from getattr(o, "FIXED", lambda: [])()
            while True:
                yield o.gen(rng)

        for case in cases():
            if n >= a.max or (n and time.time() - t0 > a.seconds):
                break
            case = json.loads(json.dumps(case))
            n += 1
            m = judge(o, case)
            if m:
                case, m = shrink(o, case, m)
                res = {"property": a.pid, "message": m, "case": case, "cases": n}
                if isinstance(case, dict) and isinstance(case.get("prog"), list):
                    res["gcode"] = base.render(case["prog"])
                if a.out:
                    json.dump(res, open(a.out, "w"), indent=1)
                print("FAILS:", m)
                return 1
        if a.out:
            json.dump({"property": a.pid, "message": None, "case": None, "cases": n, "seconds": time.time() - t0}, open(a.out, "w"))
        print("clean", n)
        return 0
    finally:
        base.cleanup()


if __name__ == "__main__":
    sys.exit(main())
