"""Running one verification unit: symbolic execution of real code against a contract."""

import time
import traceback

import z3

from . import smt
from .interp import FALSE, HavocRead, Interp
from .values import PyRaise, Ref, Unsupported


class Unit:
    """fn(I) executes one harness; every path of it is explored."""

    def __init__(self, name, fn, contracts=(), bypass=(), merge=False, budget=6000, setup=None, funcs=(), parts=1, depth=8, case=None, loops=(), whiles=(), alts=(), only=None):
        self.name, self.fn = name, fn
        self.contracts = list(contracts)
        self.bypass = set(bypass)
        self.merge = merge
        self.budget = budget
        self.funcs = tuple(funcs)
        self.only = only                        # obligations to discharge here: another check discharges the others
        self.parts, self.depth = parts, depth   # the paths are divided among this many processes
        self.loops, self.whiles = list(loops), list(whiles)
        self.alts = list(alts)                  # further loop invariants, tried if the proof with the first ones fails
        self.case = case                        # model -> concrete case for the replay oracle


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obls = []          # dicts
        self.covers = []        # smt texts: at least one must be satisfiable
        self.error = None       # (kind, message)
        self.paths = 0
        self.executed = []
        self.assumed = []
        self.loops = []
        self.time = 0.0
        self.ends = 0


def exc_text(I, e):
    try:
        o = I.get(e.exc)
        a = o.fields.get("args")
        return f"{o.cls.name}{'' if not a else ': ' + str(a[0])[:120]}"
    except Exception:  # noqa: BLE001
        return "exception"


class TimeUp(Exception):
    pass


def run_unit(u, quick_ms, long_ms, repo=None, part=0, limit=None, alt=0):
    r = UnitResult(u.name)
    if alt:
        u.loops = list(u.alts[alt - 1])
    t = time.time()
    if limit:
        import signal

        t0 = time.process_time()

        def up(sig, frm):       # processor time: a busy machine does not lose the proof
            if time.process_time() - t0 > limit or time.time() - t > 2 * limit:
                signal.setitimer(signal.ITIMER_REAL, 0)
                raise TimeUp()

        signal.signal(signal.SIGALRM, up)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)
    try:
        return _run_unit(r, u, quick_ms, long_ms, repo, part, t)
    except TimeUp:
        r = UnitResult(u.name)
        r.error = ("unsupported", f"symbolic execution not finished within {limit} s")
        r.time = time.time() - t
        return r
    finally:
        if limit:
            signal.setitimer(signal.ITIMER_REAL, 0)


def _run_unit(r, u, quick_ms, long_ms, repo, part, t):
    I = Interp(repo)
    if u.parts > 1:
        I.split = (part, u.parts, u.depth)
    I.unit = u.name
    I.budget = u.budget
    try:
        for m in ("gcode_interpreter", "abaqus_file_generator", "tools"):
            I.load("pyGCodeDecode." + m)
        I.shared_below = next(I.ids)
        for c in u.contracts:
            I.contracts[c.target] = c
        I.loops, I.whiles = list(u.loops), list(u.whiles)
        cov = []

        def thunk():
            I.bypass = set(u.bypass)
            I.merge = 1 if u.merge else 0
            u.fn(I)

        try:
            outs = I.explore(thunk, top=True)
        except HavocRead as e:
            raise Unsupported(f"read of loop-modified variable {e.h.name}")
        for o in outs:
            if o.kind == "raise":
                st = I.st
                I.st = o.st
                I.oblige(FALSE, f"no exception escapes ({exc_text(I, o.value)})", assume_after=False)
                I.st = st
            elif o.kind == "normal":
                r.ends += 1
                cov.append(o.st)
        for st in cov[:6] if len(cov) <= 6 else [cov[0], cov[len(cov) // 3], cov[len(cov) // 2], cov[-1]]:
            r.covers.append(smt.to_smt2([c for c, _ in st.pc], z3.BoolVal(True)))
        for ob in I.obls:
            if u.only is not None and not any(x in ob.name for x in u.only):
                continue
            if ob.trivial:
                r.obls.append({"name": ob.name, "where": ob.where, "trivial": True, "hash": None, "plan": []})
            else:
                plan = smt.plan(ob.hyps, ob.goal, quick_ms, long_ms)
                r.obls.append({
                    "name": ob.name, "where": ob.where, "trivial": False,
                    "hash": smt.text_hash(ob.hyps, ob.goal), "plan": plan, "goal": str(ob.goal)[:2000],
                })
    except Unsupported as e:
        r.error = ("unsupported", f"{e} (in {'/'.join(I.call_stack[-2:])}, line {getattr(I.node, 'lineno', '?')})")
    except PyRaise as e:
        r.error = ("setup-raise", exc_text(I, e))
    except TimeUp:
        raise
    except Exception:  # noqa: BLE001
        r.error = ("crash", traceback.format_exc())
    r.paths = I.stats["paths"]
    r.executed = sorted(x for x in I.executed)
    r.assumed = sorted(I.assumed)
    r.loops = sorted(I.assumed_loops)
    r.time = time.time() - t
    return r
