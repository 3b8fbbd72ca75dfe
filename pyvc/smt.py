"""Discharging obligations: z3 (several configurations) and cvc5, in worker processes."""

import hashlib
import multiprocessing as mp
import os
import queue
import time

import z3

# (backend label, config) ; rlimit keeps the verdict independent of machine load
CONFIGS = {
    "z3": {},
    "z3-nlsat": {"tactic": "qfnra-nlsat"},
    "z3-seed": {"seed": 7},
    "cvc5": {},
}


def to_smt2(hyps, neg_goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(neg_goal)
    return s.to_smt2()


def consts_of(e, memo={}):
    k = e.get_id()
    r = memo.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    stack = [e]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(x.children())
    memo[k] = (e, frozenset(out))
    return memo[k][1]


def relevant(hyps, goal, depth):
    """Hypotheses within `depth` symbol-sharing steps of the goal."""
    syms = set(consts_of(goal))
    left = list(hyps)
    keep = []
    for _ in range(depth):
        new = []
        rest = []
        for h in left:
            c = consts_of(h)
            (new if (c & syms or not c) else rest).append(h)
        # a hypothesis that introduces too many foreign symbols waits for the next round
        keep += new
        for h in new:
            syms |= consts_of(h)
        left = rest
        if not new:
            break
    ids = {h.get_id() for h in keep}
    return [h for h in hyps if h.get_id() in ids]


def subset_closed(hyps, goal):
    """Hypotheses whose symbols all occur in the goal (tight lemma-like query)."""
    syms = consts_of(goal)
    return [h for h in hyps if consts_of(h) <= syms]


def _solve_z3(text, timeout_ms, rlimit, tactic=None, seed=None):
    ctx = z3.Context()
    if tactic:
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "simplify", tactic, ctx=ctx).solver()
    else:
        s = z3.Solver(ctx=ctx)
    try:
        s.set("timeout", timeout_ms)
    except z3.Z3Exception:
        pass
    if not tactic:
        if rlimit:
            s.set("rlimit", rlimit)
        if seed:
            s.set("random_seed", seed)
    try:
        s.from_string(text)
        r = s.check()
    except z3.Z3Exception as e:
        return "unknown", str(e)
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        try:
            m = s.model()
            md = {}
            for d in m.decls():
                if d.arity() == 0:
                    md[d.name()] = _val(m[d])
            return "sat", md
        except z3.Z3Exception as e:
            return "sat", {}
    return "unknown", s.reason_unknown()


def _val(v):
    try:
        if z3.is_int_value(v):
            return str(v.as_long())
        if z3.is_rational_value(v):
            return f"{v.numerator_as_long()}/{v.denominator_as_long()}"
        if z3.is_algebraic_value(v):
            q = v.approx(30)
            return f"{q.numerator_as_long()}/{q.denominator_as_long()}"
        return str(v)
    except z3.Z3Exception:
        return str(v)


def _solve_cvc5(text, timeout_ms):
    import cvc5

    tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit-per", str(timeout_ms))
    slv.setOption("nl-cov", "true")
    slv.setLogic("ALL")
    parser = cvc5.InputParser(slv)
    parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "o.smt2")
    sm = parser.getSymbolManager()
    res = "unknown"
    while True:
        cmd = parser.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(slv, sm)
        if "unsat" in str(out):
            res = "unsat"
        elif str(out).strip() == "sat":
            res = "sat"
    return res, None


def attempt(cfg, text, timeout_ms):
    t = time.time()
    try:
        if cfg == "cvc5":
            r, info = _solve_cvc5(text, timeout_ms)
        elif cfg == "z3-nlsat":
            r, info = _solve_z3(text, timeout_ms, 0, tactic="qfnra-nlsat")
        elif cfg == "z3-seed":
            r, info = _solve_z3(text, timeout_ms, 0, seed=7)
        else:
            r, info = _solve_z3(text, timeout_ms, 0)
    except Exception as e:  # noqa: BLE001 - a crash of a back end is 'unknown'
        r, info = "unknown", repr(e)
    return r, info, time.time() - t


def _worker(qin, qout):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    while True:
        job = qin.get()
        if job is None:
            return
        jid, cfg, text, timeout_ms = job
        r = attempt(cfg, text, timeout_ms)
        qout.put((jid, cfg) + r)


class Pool:
    """Worker processes with a hard wall limit per job."""

    def __init__(self, n=None):
        self.n = n or min(8, os.cpu_count() or 2)
        self.ctx = mp.get_context("fork")
        self.workers = []

    def _spawn(self):
        qin, qout = self.ctx.Queue(), self.ctx.Queue()
        p = self.ctx.Process(target=_worker, args=(qin, qout), daemon=True)
        p.start()
        return {"p": p, "in": qin, "out": qout, "job": None, "t": 0}

    def run(self, jobs, done, deadline=None):
        """jobs: iterator-like deque of (jid, cfg, text, timeout_ms); done(jid,cfg,r,info,dt) may append."""
        while len(self.workers) < min(self.n, max(1, len(jobs))):
            self.workers.append(self._spawn())
        while True:
            if deadline is not None and time.time() > deadline:
                jobs.clear()
                return
            busy = False
            for i, w in enumerate(self.workers):
                if w["job"] is not None:
                    busy = True
                    job = w["job"]
                    try:
                        msg = w["out"].get_nowait()
                        w["job"] = None
                        done(*msg)
                    except queue.Empty:
                        if time.time() - w["t"] > job[3] / 1000 * 2 + 10 or not w["p"].is_alive():
                            w["p"].kill()
                            w["p"].join()
                            self.workers[i] = w = self._spawn()
                            done(job[0], job[1], "unknown", "hard timeout", time.time() - w["t"] if w["t"] else 0)
                if w["job"] is None and jobs:
                    j = jobs.popleft()
                    w["job"] = j
                    w["t"] = time.time()
                    w["in"].put(j)
                    busy = True
            if not busy and not jobs:
                return
            time.sleep(0.002)

    def close(self):
        for w in self.workers:
            w["p"].kill()
        self.workers = []


class Verdict:
    __slots__ = ("status", "backend", "time", "model", "tries", "note")

    def __init__(self):
        self.status = "unknown"   # proved | refuted | unknown
        self.backend = None
        self.time = 0.0
        self.model = None
        self.tries = []
        self.note = None


def plan(hyps, goal, quick_ms, long_ms, allow_refute=True):
    """Sequence of (cfg, text, timeout, is_full)."""
    ng = z3.Not(goal)
    seen = {}
    out = []

    def add(cfg, hs, ms, full):
        text = to_smt2(hs, ng)
        k = (cfg, text, ms)
        if k not in seen:
            seen[k] = 1
            out.append((cfg, text, ms, full))

    full = hyps
    r1 = relevant(hyps, goal, 1)
    r2 = relevant(hyps, goal, 2)
    tight = subset_closed(hyps, goal)
    add("z3", full, quick_ms, True)
    if len(r1) < len(full):
        add("z3", r1, quick_ms, False)
    if len(tight) < len(r1):
        add("z3", tight, quick_ms, False)
        add("z3-nlsat", tight, quick_ms, False)
    add("z3-nlsat", r1, quick_ms, len(r1) == len(full))
    if len(r2) not in (len(r1), len(full)):
        add("z3", r2, quick_ms, False)
    add("cvc5", full, quick_ms, True)
    add("z3-nlsat", full, long_ms, True)
    add("z3", r1, long_ms, len(r1) == len(full))
    add("cvc5", r1, long_ms, len(r1) == len(full))
    add("z3-seed", full, long_ms, True)
    return out


def discharge(plans, order=None, nproc=None, stop_after=None):
    """plans: list of plan() results; returns list of Verdict."""
    from collections import deque

    order = order or {}
    pool = Pool(nproc)
    state, verd = {}, {}
    plans = [list(p) for p in plans]
    jobs = deque()

    def push(i):
        p = plans[i]
        k = state[i]
        if k < len(p):
            cfg, text, ms, full = p[k]
            jobs.append((i, cfg, text, ms))

    def done(i, cfg, r, info, dt):
        v = verd[i]
        v.time += dt
        full = plans[i][state[i]][3]
        v.tries.append((cfg, r, round(dt, 3)))
        if r == "unsat":
            v.status, v.backend = "proved", cfg
            v.note = state[i]
            return
        if r == "sat" and full:
            v.status, v.model = "refuted", (info if isinstance(info, dict) else None)
            v.backend = cfg
            return
        state[i] += 1
        push(i)

    for i, p in enumerate(plans):
        verd[i] = Verdict()
        h = order.get(i)
        if h is not None and 0 < h < len(p):
            plans[i] = [p[h]] + p[:h] + p[h + 1:]
        state[i] = 0
        push(i)
    try:
        if jobs:
            pool.run(jobs, done, None if stop_after is None else time.time() + stop_after)
    finally:
        pool.close()
    return [verd[i] for i in range(len(plans))]


def text_hash(hyps, goal):
    return hashlib.sha256(to_smt2(hyps, z3.Not(goal)).encode()).hexdigest()[:24]
