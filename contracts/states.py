"""Parsed programs and the states made from them (C05, C06, C18).

A program is a sequence of n line dictionaries; which commands line k holds and with which numbers is given by
uninterpreted functions of k.  The prescribed machine state before line k (0-based) is a set of functions of k,
defined by recursion over the lines; nothing of it is taken from the code.
"""

from fractions import Fraction

import z3

from .common import *  # noqa: F401,F403
from .common import (
    FALSE, FLT, INT, TRUE, ZERO, HInst, HList, Num, Phi, Poly, Ref, SStr, SymSeq, cls, cmp, comps, compare, const, eqn, mkstate, mul, num, real, sub, vec, z_and,
    z_not, z_or, zb,
)
from .traj import Stub, ifun, iz
from pyvc.interp import Lazy
from pyvc.lib import STRIP, MapTag
from pyvc.loops import MUTSEQ, LoopSpec, base_tag
from pyvc.values import HDict, Opaque, StrSort, Unsupported

ONE = Poly.const(1)
AXES = "XYZE"

COMMANDS = {
    "G0": "EXYZF", "G1": "EXYZF", "M203": "EXYZ", "M204": "PRST", "M205": "EJSXYZ", "G4": "PS", "M82": None, "M83": None, "G20": None, "G21": None,
    "G90": None, "G91": None, "G92": "EXYZ",
}
UNSUPPORTED = ("G2", "G3", "G10", "G11", "G28", "G29")
SETTINGS = {"speed": "p_vel", "p_acc": "p_acc", "jerk": "jerk", "vX": "vX", "vY": "vY", "vZ": "vZ", "vE": "vE"}   # state's name -> preset's name
DIGITS = Fraction(1, 10 ** 10)


def bfun(name):
    return z3.Function(name, z3.IntSort(), z3.BoolSort())


def zint(name):
    return z3.Function(name, z3.IntSort(), z3.IntSort())


def sfun(name):
    return z3.Function(name, z3.IntSort(), StrSort)


def F(f, z):
    return Num(Poly.atom(f(z)), FLT)


class Program:
    """Tag of the list of line dictionaries."""

    def __init__(self, I, cue=None):
        self.n = I.int_("lines")
        I.assume(self.n.z() >= 0)
        self.cue = cue
        self.has = {c: bfun("has_" + c) for c in list(COMMANDS) + list(UNSUPPORTED) + [";"]}
        self.harg = {(c, a): bfun(f"has_{c}_{a}") for c, s in COMMANDS.items() if s for a in s}
        self.arg = {(c, a): ifun(f"{c}_{a}") for c, s in COMMANDS.items() if s for a in s}
        self.text = sfun("comment")
        self.line = zint("line")
        # prescribed machine state before line k
        self.phys = {a: ifun("phys" + a) for a in AXES}
        self.org = {a: ifun("org" + a) for a in AXES}
        self.abs_, self.abse, self.inch = bfun("absolute"), bfun("absolute_e"), bfun("inch")
        self.set = {s: ifun("set_" + s) for s in SETTINGS}
        self.layer = zint("layer")
        self.preset = {}
        self.found = {c: zint("found_" + c) for c in UNSUPPORTED}

    def sliced(self, lo):
        raise Unsupported("part of the program")

    # ---- lines
    def word(self, z, c, a):
        """Line z has command c with argument a."""
        return z3.And(self.has[c](z), self.harg[c, a](z))

    def line_dict(self, I, k):
        k = I.norm(k)
        key = ("line", k.key())
        r = I.st.ghost.get(key)
        if r is not None and r.id in I.st.heap:
            return r
        z = iz(k)
        self.step(I, z)
        ent = {}
        for c in UNSUPPORTED:
            ent[c] = (self.has[c](z), Opaque("arguments of " + c))
        for c, s in COMMANDS.items():
            v = Opaque("argument of " + c)
            if s:
                v = I.alloc(HDict({a: (self.harg[c, a](z), F(self.arg[c, a], z)) for a in s}, True))
            ent[c] = (self.has[c](z), v)
        ent[";"] = (self.has[";"](z), SStr(self.text(z)))
        ent["line_number"] = (TRUE, Num(Poly.atom(self.line(z)), INT))
        r = I.alloc(HDict(ent, True))
        I.st.ghost[key] = r
        return r

    def list(self, I):
        return I.alloc(HList((), SymSeq(self.n.t, lambda J, k: self.line_dict(J, k), self), "list", True))

    # ---- prescribed states
    def step(self, I, z):
        """Definition of the recursion at line z."""
        w, has = self.word, self.has
        eqs = []
        eqs.append(self.abs_(z + 1) == z3.If(has["G91"](z), False, z3.If(has["G90"](z), True, self.abs_(z))))
        eqs.append(self.abse(z + 1) == z3.If(has["M83"](z), False, z3.If(has["M82"](z), True, self.abse(z))))
        eqs.append(self.inch(z + 1) == z3.If(has["G21"](z), False, z3.If(has["G20"](z), True, self.inch(z))))
        mm = lambda x: z3.If(self.inch(z + 1), z3.RealVal("127/5") * x, x)  # noqa: E731   millimetres
        for a in AXES:
            absolute = self.abse(z + 1) if a == "E" else self.abs_(z + 1)
            p = self.phys[a](z)
            for c in ("G0", "G1"):
                v = mm(self.arg[c, a](z))
                p = z3.If(w(z, c, a), z3.If(absolute, self.org[a](z) + v, p + v), p)
            eqs.append(self.phys[a](z + 1) == p)
            eqs.append(self.org[a](z + 1) == z3.If(w(z, "G92", a), p - mm(self.arg["G92", a](z)), self.org[a](z)))

        def last(cur, *words):
            for c, a, f in words:
                cur = z3.If(w(z, c, a), f(mm(self.arg[c, a](z))), cur)
            return cur
        same = lambda x: x  # noqa: E731
        s = self.set
        eqs.append(s["speed"](z + 1) == last(s["speed"](z), ("G0", "F", lambda x: x / 60), ("G1", "F", lambda x: x / 60)))
        eqs.append(s["p_acc"](z + 1) == last(s["p_acc"](z), ("M204", "P", same)))
        eqs.append(s["jerk"](z + 1) == last(s["jerk"](z), ("M205", "X", same)))
        for a in AXES:
            eqs.append(s["v" + a](z + 1) == last(s["v" + a](z), ("M203", a, same)))
        if self.cue is not None:
            hit = z3.And(has[";"](z), STRIP(self.text(z)) == I.str_term(self.cue))
            eqs.append(self.layer(z + 1) == z3.If(hit, self.layer(z) + 1, self.layer(z)))
        for c in UNSUPPORTED:
            eqs.append(self.found[c](z + 1) == z3.If(has[c](z), self.found[c](z) + 1, self.found[c](z)))
            eqs.append(self.found[c](z) >= 0)
        for e in eqs:
            I.assume(e)

    def start(self, I, setup):
        """The recursion begins with the preset."""
        z = z3.IntVal(0)
        for a in AXES:
            I.assume(z3.And(self.phys[a](z) == setup[a].zr(), self.org[a](z) == 0))
        I.assume(z3.And(self.abs_(z), self.abse(z), z3.Not(self.inch(z)), self.layer(z) == 0, *[self.found[c](z) == 0 for c in UNSUPPORTED]))
        for s, p in SETTINGS.items():
            I.assume(self.set[s](z) == setup[p].zr())


def presets(I, cue=None):
    """A complete setup dictionary."""
    d = {k: real(I, k) for k in ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "X", "Y", "Z", "E")}
    nums = dict(d)
    d["printer_name"], d["firmware"] = I.str_("name"), I.str_("firmware")
    ent = {k: (TRUE, v) for k, v in d.items()}
    for k in ("nozzle_diam", "filament_diam"):
        ent[k] = (I.bool_("has " + k), real(I, k))
    if cue is not None:
        ent["layer_cue"] = (TRUE, cue)
    return I.alloc(HDict(ent, True)), nums


# ---------------------------------------------------------------- states


class StateSpec:
    """What state j (after j lines) has to be; what: 'position', 'settings' or both."""

    def __init__(self, P, what):
        self.P, self.what = P, what
        self.pos = {a: ifun("pos" + a) for a in AXES}

    def near(self, I, a, x, z):
        """x is the prescribed coordinate up to rounding to ten digits."""
        p = F(self.P.phys[a], z)
        d = sub(I, num(I, x), p)
        q = Num(DIGITS, FLT)
        return z_and([cmp(I, d, "<=", q), cmp(I, sub(I, ZERO, d), "<=", q)])

    def units(self, z):
        return z3.And(z > 0, self.P.inch(z))

    def comment(self, I, j):
        z = iz(j) - 1
        c = self.P.has[";"](z)
        return Phi([(c, SStr(STRIP(self.P.text(z)))), (z_not(c), None)])

    def pause(self, I, j):
        P, z = self.P, iz(j) - 1
        s, p = P.word(z, "G4", "S"), P.word(z, "G4", "P")
        return [(s, F(P.arg["G4", "S"], z)), (z3.And(z_not(s), p), mul(I, F(P.arg["G4", "P"], z), Num(Fraction(1, 1000), FLT))), (z_not(z3.Or(s, p)), None)]

    # ---- a state as the invariant describes it
    def make(self, I, j, links):
        z = iz(j)
        c = I.member("state:state").members["p_settings"]
        first = z == 0
        if "position" in self.what:
            cs = [F(self.pos[a], z) for a in AXES]
            for a, x in zip(AXES, cs):
                I.assume(self.near(I, a, x, z))
        else:
            cs = [real(I, "somewhere") for _ in AXES]
        kw = {s: F(self.P.set[s], z) for s in SETTINGS} if "settings" in self.what else {s: real(I, "some " + s) for s in SETTINGS}
        u = self.units(z)
        kw["units"] = Phi([(u, "inch"), (z_not(u), "SImm")])
        pos, ps = vec(I, "position", cs), I.instantiate(c, [], kw)
        r = mkstate(I, pos, ps)
        later = z_not(first)

        def unless_first(v):
            return Phi([(first, None), (later, v)])

        I.setattr(r, "line_number", unless_first(Num(Poly.atom(self.P.line(z - 1)), INT)))
        I.setattr(r, "comment", Phi([(first, I.str_("initial comment"))] + [(z_and([later, g]), v) for g, v in self.comment(I, j).alts]))
        I.setattr(r, "pause", Phi([(first, None)] + [(z_and([later, g]), v) for g, v in self.pause(I, j)]))
        if self.P.cue is not None:
            I.setattr(r, "layer", unless_first(Num(Poly.atom(self.P.layer(z)), INT)))
        for q in (pos, ps):
            o = I.get(q)
            I.st.heap[q.id] = HInst(o.cls, o.fields, True, o.tag)
        for nm, (g, f) in links.items():
            put_lazy(I, r, nm, [(g, Lazy(f)), (z_not(g), None)])
        return r

    # ---- a state as the code made it
    def check(self, I, j, s, w):
        z = iz(j)
        s = I.force(s)
        ok = isinstance(s, Ref) and isinstance(I.get(s), HInst) and I.get(s).cls.name == "state"
        I.oblige(TRUE if ok else FALSE, w + "a state is listed")
        if not ok:
            return
        first = I.norm(j).is_zero() if I.norm(j).is_const() else False
        if "position" in self.what:
            for a, x in zip(AXES, comps(I, I.getattr(s, "state_position"))):
                I.oblige(self.near(I, a, x, z), w + f"position: {a}")
        if "settings" in self.what:
            ps = I.getattr(s, "state_p_settings")
            for k in SETTINGS:
                I.oblige(eqn(I, num(I, I.getattr(ps, k)), F(self.P.set[k], z)), w + f"settings: {k}")
            u = I.getattr(ps, "units")
            I.oblige(zb(I.truth(I.eq(u, "inch"))) == self.units(z), w + "settings: units")
            I.oblige(z_or([zb(I.truth(I.eq(u, "inch"))), zb(I.truth(I.eq(u, "SImm")))]), w + "settings: units")
            if not first:
                g = I.getattr(s, "line_number")
                I.oblige(eqn(I, num(I, g), Num(Poly.atom(self.P.line(z - 1)), INT)), w + "line number")
                I.oblige(zb(I.truth(I.eq(I.getattr(s, "comment"), self.comment(I, j)))), w + "comment")
                if self.P.cue is not None:
                    I.oblige(eqn(I, num(I, I.getattr(s, "layer")), Num(Poly.atom(self.P.layer(z)), INT)), w + "layer number")
        if "pause" in self.what:
            p = I.getattr(s, "pause")
            if first:
                I.oblige(zb(I.truth(I.eq(p, None))), w + "no dwell at the beginning")
            else:
                I.oblige(z_and([z3.Implies(g, zb(I.truth(I.eq(p, v)))) for g, v in self.pause(I, j)]), w + "dwell time")

    def link(self, I, s, nm, expected, w):
        if "settings" not in self.what:
            return
        v = I.force(I.getattr(s, nm))
        I.oblige(TRUE if v == expected else FALSE, w + nm.replace("_", " ") + " is the neighbour in the list")


class _Later:
    pass


LATER = Opaque("later")


def put_lazy(I, r, nm, alts):
    """Set property nm through its real setter to a value which is computed on first access."""
    before = I.get(r).fields
    I.setattr(r, nm, LATER)
    o = I.get(r)
    hit = [k for k, v in o.fields.items() if v is LATER]
    if not hit:
        raise Unsupported(f"{nm} is not stored")
    fs = dict(o.fields)
    for k in hit:
        fs[k] = Phi(alts)
    I.st.heap[r.id] = HInst(o.cls, fs, o.frozen, o.tag)


class States:
    """The list of the states after 0..n lines; states are mutable until the program is finished."""

    def __init__(self, I, spec, n, frozen=False):
        self.spec, self.n, self.frozen = spec, n, frozen      # n: number of finished lines
        self.store = I.alloc(HInst(MUTSEQ, {"entries": ()}, False, "mutseq"))

    def entries(self, I):
        return I.get(self.store).fields["entries"]

    def get(self, I, i):
        i = I.norm(i)
        es = self.entries(I)
        for j, r, _ in es:
            if I.norm(i - j).is_zero():
                return r
        for j, r, _ in es:
            if I.branch(compare(I.norm(i - j), "==", I.st.positive)):
                return r
        z = iz(i)
        links = {"next_state": (z < iz(self.n), lambda J: self.get(J, i + ONE)), "prev_state": (z > 0, lambda J: self.get(J, i - ONE))}
        r = self.spec.make(I, i, links)
        if self.frozen:
            o = I.get(r)
            I.st.heap[r.id] = HInst(o.cls, o.fields, True, o.tag)
        I.st.heap[self.store.id] = HInst(MUTSEQ, {"entries": self.entries(I) + ((i, r, I.get(r).fields),)}, False, "mutseq")
        return r

    def seq(self, I):
        return SymSeq(I.norm(self.n + ONE), lambda J, i: self.get(J, i), self)

    def sliced(self, lo):
        raise Unsupported("part of the state list")

    def unchanged(self, I, but):
        """Every state touched so far is as it was; state `but` may have got a new next_state."""
        for j, r, old in self.entries(I):
            new = I.get(r).fields
            mine = I.norm(j - but).is_zero()
            for k in set(old) | set(new):
                if k in old and k in new and (old[k] is new[k] or I.same(old[k], new[k])):
                    continue
                if mine and k in ("_next_state", "next_state"):
                    continue
                I.oblige(FALSE, "earlier states stay as they are")


class StateLoop(LoopSpec):
    name = "the machine is in the prescribed state, and the list holds the states after the lines so far"

    def match(self, I, L):
        return isinstance(base_tag(L.seq.tag), Program) and self.machine(I, L) is not None and self.states(I, L) is not None

    def frames(self, I, L):
        r = L.frame
        while r is not None:
            o = I.get(r)
            if o.parent is None:
                return
            yield r, o
            r = Ref(o.parent)

    def objects(self, I, L, kind):
        for r, o in self.frames(I, L):
            for nm, v in o.vars.items():
                if isinstance(v, Ref) and isinstance(I.st.heap.get(v.id), kind):
                    yield nm, v, I.get(v)

    def machine(self, I, L):
        for nm, v, o in self.objects(I, L, HDict):
            if not o.frozen and {"X", "_X", "absolute_position", "units", "p_vel"} <= set(o.ent):
                return v

    def states(self, I, L):
        for nm, v, o in self.objects(I, L, HList):
            if not o.frozen and o.pre is None and len(o.items) == 1 and isinstance(o.items[0], Ref) and isinstance(I.get(o.items[0]), HInst) and I.get(o.items[0]).cls.name == "state":
                return v

    def counter(self, I, L):
        from pyvc.loops import stored_names

        out = [nm for nm in stored_names(L.stmt.body) if L.has(I, nm) and isinstance(L.var(I, nm), Num) and L.var(I, nm).ty == INT]
        if len(out) > 1:
            out = [x for x in out if "layer" in x]
        return out[0] if len(out) == 1 else None

    def values(self, I, P, what, z, unit):
        """What the machine dictionary holds: (key, value)."""
        out = []
        pos, st = "position" in what, "settings" in what
        for a in AXES:
            out.append((a, sub(I, F(P.phys[a], z), F(P.org[a], z)) if pos else None))
            out.append(("_" + a, F(P.org[a], z) if pos else None))
        out.append(("absolute_position", P.abs_(z) if pos else None))
        out.append(("absolute_extrusion", P.abse(z) if pos else None))
        for s, p in SETTINGS.items():
            out.append((p, F(P.set[s], z) if st else None))
        out.append(("units", unit))
        return out

    def spec(self, I):
        return I.st.ghost["spec"]

    def enter(self, I, L):
        sp = self.spec(I)
        P = base_tag(L.seq.tag)
        vm, lst = self.machine(I, L), self.states(I, L)
        L.data["vm"], L.data["lst"] = vm, lst
        L.touch(vm, lst)
        self.compare(I, L, z3.IntVal(0), "loop invariant before the first line: ")
        s = I.get(lst).items[0]
        L.touch(s)
        sp.check(I, Poly.const(0), s, "initial state: ")
        for nm in ("prev_state", "next_state"):
            sp.link(I, s, nm, None, "initial state: ")
        c = self.counter(I, L) if P.cue is not None else None
        L.data["counter"] = c
        if c is not None:
            I.oblige(eqn(I, num(I, L.var(I, c)), ZERO), "loop invariant before the first line: layers")
        L.data["rest"] = {k: v for k, v in I.get(vm).ent.items()}

    def compare(self, I, L, z, w):
        sp = self.spec(I)
        ent = I.get(L.data["vm"]).ent
        for k, v in self.values(I, sp.P, sp.what, z, None):
            if k not in ent or not z3.is_true(ent[k][0]):
                raise Unsupported(f"machine value {k} is missing")
            if v is None:
                continue
            x = ent[k][1]
            if isinstance(v, z3.BoolRef):
                I.oblige(zb(I.truth(I.eq(x, True))) == v, w + k)
                I.oblige(z_or([zb(I.truth(I.eq(x, True))), zb(I.truth(I.eq(x, False)))]), w + k)
            else:
                I.oblige(eqn(I, num(I, x), v), w + k)
        u = ent["units"][1]
        I.oblige(zb(I.truth(I.eq(u, "inch"))) == sp.P.inch(z), w + "units")
        I.oblige(z_or([zb(I.truth(I.eq(u, "inch"))), zb(I.truth(I.eq(u, "SImm")))]), w + "units")

    def havoc(self, I, L, k):
        sp = self.spec(I)
        P, z = sp.P, iz(k)
        vm, lst = L.data["vm"], L.data["lst"]
        end = I.norm(k - L.n).is_zero()
        unit = Phi([(P.inch(z), "inch"), (z_not(P.inch(z)), "SImm")])
        if not end:
            # one case per unit in force on the line
            mm, inch, was = P.has["G21"](z), P.has["G20"](z), P.inch(z)
            c = I.choose([mm, z3.And(inch, z3.Not(mm)), z3.And(was, z3.Not(inch), z3.Not(mm)), z3.And(z3.Not(was), z3.Not(inch), z3.Not(mm))])
            unit = unit if c < 2 else "inch" if c == 2 else "SImm"
        ent = dict(I.get(vm).ent)
        for key, v in self.values(I, P, sp.what, z, unit):
            if v is None:
                v = I.bool_("some mode") if key.startswith("absolute") else real(I, "some " + key)
            ent[key] = (TRUE, v)
        I.st.heap[vm.id] = HDict(ent)
        st = States(I, sp, k)
        L.touch(st.store)
        L.data["states"] = st
        I.st.ghost["states"] = st
        I.st.heap[lst.id] = HList((), st.seq(I), "list")
        if L.data["counter"] is not None:
            L.set(I, L.data["counter"], Num(Poly.atom(P.layer(z)), INT))
        if not end:
            L.touch(st.get(I, k))
            P.step(I, z)

    def check(self, I, L, k):
        sp = self.spec(I)
        st, lst = L.data["states"], L.data["lst"]
        for _, r, _ in st.entries(I):
            L.touch(r)
        self.compare(I, L, iz(k), "loop invariant: ")
        for key, v in I.get(L.data["vm"]).ent.items():
            if key not in dict(self.values(I, sp.P, sp.what, iz(k), None)) and (key not in L.data["rest"] or not I.same(v[1], L.data["rest"][key][1])):
                raise Unsupported(f"machine value {key} changes")
        if L.data["counter"] is not None:
            I.oblige(eqn(I, num(I, L.var(I, L.data["counter"])), Num(Poly.atom(sp.P.layer(iz(k))), INT)), "loop invariant: layers")
        n = I.seq_len(lst)
        I.oblige(eqn(I, n, Num(k + ONE, INT)), "one state per line")
        if not I.norm(n.t - k - ONE).is_zero():
            return
        s = I.force(I.getitem(lst, Num(k, INT)))
        sp.check(I, k, s, "")
        last = I.force(I.getitem(lst, Num(I.norm(k - ONE), INT)))
        sp.link(I, s, "prev_state", last, "")
        sp.link(I, s, "next_state", None, "")
        sp.link(I, last, "next_state", s, "")
        st.unchanged(I, I.norm(k - ONE))


def u_states(what, cue):
    def fn(I):
        c = I.str_("cue") if cue else None
        P = Program(I, c)
        setup, nums = presets(I, c)
        P.start(I, nums)
        sp = StateSpec(P, what)
        I.st.ghost["spec"] = sp
        lines = P.list(I)
        path = I.str_("path")

        def read(J, v):
            J.oblige(TRUE if J.same(v["filepath"], path) else FALSE, "the requested file is read")
            return lines

        for s in (Stub("state_generator.read_gcode_to_dict_list", read), Stub("state_generator.check_for_unsupported_commands", lambda J, v: J.new_dict({}))):
            I.contracts[s.target] = s
        r = I.force(I.call(cls(I, "state_generator:generate_states"), [], {"filepath": path, "initial_machine_setup": setup}))
        I.oblige(eqn(I, I.seq_len(r), Num(P.n.t + ONE, INT)), "one state per line, and the initial state")
        if not I.norm(I.seq_len(r).t - P.n.t - ONE).is_zero():
            return
        j = I.int_("j")
        I.assume(z3.And(j.z() >= 0, j.z() <= P.n.z()))
        if I.branch(j.z() == 0):
            s = I.getitem(r, Num(0, INT))
            sp.check(I, Poly.const(0), s, "initial state: ")
            sp.link(I, s, "prev_state", None, "initial state: ")
            return
        s = I.getitem(r, j)
        sp.check(I, j.t, s, "listed state: ")
        sp.link(I, s, "prev_state", I.force(I.getitem(r, Num(I.norm(j.t - ONE), INT))), "listed state: ")
        nx = I.force(I.getitem(r, Num(I.norm(j.t + ONE), INT))) if I.branch(j.z() < P.n.z()) else None
        sp.link(I, s, "next_state", nx, "listed state: ")
    return fn
