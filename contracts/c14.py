"""C14: the setup dictionary and its checks.

A presets file is a dictionary printer -> preset; each printer may or may not be in it and each preset may or may not
hold each key.  Two printer names stand for any two, one key name for any key outside the known ones (the code can
only compare names).  The setup object is taken in any state its methods can leave it in: `ordinary` keys of a preset
are the preset with the explicit properties, the `laid` keys (initial position, layer cue, printer name) are arbitrary,
as earlier calls of get_dict leave them behind in the preset.
"""

from .traj import *  # noqa: F401,F403
from .traj import *
from pyvc.unit import Unit
from pyvc.interp import z_or

REQ = ("p_vel", "p_acc", "jerk", "vX", "vY", "vZ", "vE", "X", "Y", "Z", "E", "printer_name", "firmware")
OPT = ("layer_cue", "nozzle_diam", "filament_diam")
AX = ("X", "Y", "Z", "E")
LAID = AX + ("layer_cue", "printer_name")
OTHER = "?any other key"
KEYS = REQ + OPT + (OTHER,)
NAMES = ("?a printer", "?another printer", "?a third printer")


def value(I, k, what):
    return I.str_(f"{what} {k}") if k in ("layer_cue", "printer_name", "firmware", OTHER) else real(I, f"{what} {k}", ANYNUM)


def some_dict(I, what, keys=KEYS, always=()):
    """A dictionary which may hold each of the keys."""
    ent = {}
    for k in keys:
        ent[k] = (TRUE if k in always else I.bool_(f"{what} has {k}"), value(I, k, what))
    return I.alloc(HDict(ent))


class World:
    """A presets file."""

    def __init__(self, I, always=()):
        self.presets = {n: some_dict(I, n, always=always) for n in NAMES}
        self.has = {n: I.bool_(f"file has {n}") for n in NAMES}
        self.file = I.alloc(HDict({n: (self.has[n], self.presets[n]) for n in NAMES}))
        self.orig = {n: dict(I.get(self.presets[n]).ent) for n in NAMES}
        self.loads = Stub("gcode_interpreter.setup.load_setup", lambda J, v: self.file)
        I.contracts[self.loads.target] = self.loads


def setup_in(I, W, selected, cue, position=True):
    """A setup object in mid-life."""
    kw = {"presets_file": "presets.yaml"}
    if cue is not None:
        kw["layer_cue"] = cue
    s = I.instantiate(cls(I, "gcode_interpreter:setup"), [], kw)
    if selected is not None:
        I.assume(W.has[selected])
        call(I, s, "select_printer", selected)
    if not position:
        return s, None
    init = [real(I, "initial " + k, ANYNUM) for k in AX]
    call(I, s, "set_initial_position", tuple(init))
    return s, dict(zip(AX, init))


def presets_now(I, s):
    """The presets as the object holds them: name -> entries."""
    o = I.get(I.force(attr(I, s, "setup_dict")))
    out = {}
    for n in NAMES:
        g, v = o.ent[n]
        out[n] = (g, dict(I.get(I.force(v)).ent))
    return out


def same_value(I, a, b):
    if I.same(a, b):
        return TRUE
    try:
        x, y = I.num(a), I.num(b)
    except Exception:  # noqa: BLE001
        x = y = None
    if x is not None and y is not None:
        return zb(I.eq(a, b))
    return zb(I.eq(a, b))


def same_entry(I, got, want):
    """Entries (guard, value) or None agree."""
    g = got[0] if got is not None else FALSE
    w = want[0] if want is not None else FALSE
    if got is None or want is None:
        return z_not(z_or([g, w]))
    return z_and([g == w, z_or([z_not(g), same_value(I, got[1], want[1])])])


def compare(I, got, want, keys, what):
    for k in keys:
        I.oblige(same_entry(I, got.get(k), want.get(k)), f"{what}: {'an unknown key' if k == OTHER else k}")


def frame(I, W, s, but=(), keys=KEYS, what="other presets are left alone"):
    for n, (g, ent) in presets_now(I, s).items():
        I.oblige(g == W.has[n], "no printer appears or vanishes")
        if n not in but:
            compare(I, ent, W.orig[n], keys, what)


A, B = NAMES[:2]


# ---------------------------------------------------------------- units
def u_init(printer, cue):
    def fn(I):
        W = World(I, always=("firmware",))
        c = I.str_("cue") if cue else None
        kw = {"presets_file": "presets.yaml"}
        if printer:
            kw["printer"] = A
        if c is not None:
            kw["layer_cue"] = c
        e, s = raised(I, lambda: I.instantiate(cls(I, "gcode_interpreter:setup"), [], kw))
        if printer:
            I.oblige(zb(W.has[A]) if e is None else z_not(W.has[A]), "a setup is created exactly if its printer is in the presets file")
        else:
            I.oblige(TRUE if e is None else FALSE, "a setup without a printer is created")
        if e is not None:
            return
        frame(I, W, s, but=(A,))
        compare(I, presets_now(I, s)[A][1], W.orig[A], [k for k in KEYS if k not in LAID], "the selected preset is kept")
        if printer:
            I.oblige(zb(I.eq(attr(I, s, "firmware"), W.orig[A]["firmware"][1])), "the firmware is that of the preset")
        # a setup without explicit settings gives the preset at the origin
        if printer:
            check_dict(I, W, s, A, {k: Num(0, INT) for k in AX}, c, W.orig[A])
        else:
            e, _ = raised(I, lambda: call(I, s, "set_property", some_dict(I, "property")))
            I.oblige(TRUE if e is not None else FALSE, "a property without a selected printer is rejected")
            frame(I, W, s)
    return fn


def check_dict(I, W, s, sel, init, cue, preset):
    d = dict(I.get(I.force(call(I, s, "get_dict"))).ent)
    want = dict(preset)
    for k in AX:
        want[k] = (TRUE, init[k])
    if cue is not None:
        want["layer_cue"] = (TRUE, cue)
    want["printer_name"] = (TRUE, sel)
    compare(I, d, want, KEYS, "setup dictionary")
    I.oblige(TRUE if set(d) <= set(KEYS) else FALSE, "the setup dictionary holds nothing else")


def u_select(before):
    def fn(I):
        W = World(I)
        s, init = setup_in(I, W, before, None)
        e, _ = raised(I, lambda: call(I, s, "select_printer", B))
        I.oblige(zb(W.has[B]) if e is None else z_not(W.has[B]), "a printer is selected exactly if the presets file has it")
        frame(I, W, s)
        if e is None:
            check_dict(I, W, s, B, init, None, W.orig[B])
            frame(I, W, s, but=(B,))
        elif before is not None:
            check_dict(I, W, s, before, init, None, W.orig[before])
    return fn


def overlaid(base, over):
    out = dict(base)
    for k, (g, v) in over.items():
        out[k] = (g, v)
    return out


def u_property(again):
    """Explicit properties, the last one winning; other printers are not touched."""
    def fn(I):
        W = World(I)
        s, init = setup_in(I, W, A, None)
        p = some_dict(I, "property", [k for k in KEYS if k not in LAID])
        pe = dict(I.get(p).ent)
        e, _ = raised(I, lambda: call(I, s, "set_property", p))
        I.oblige(TRUE if e is None else FALSE, "a property of the selected printer is accepted")
        if e is not None:
            return
        ent = presets_now(I, s)[A][1]
        want = {k: choose(I, pe.get(k), W.orig[A].get(k)) for k in KEYS}
        compare_chosen(I, ent, want, [k for k in KEYS if k not in LAID], "property laid over the preset")
        compare(I, dict(I.get(p).ent), pe, KEYS, "the given properties are not changed")
        frame(I, W, s, but=(A,))
        if again:
            if again == "queried":
                call(I, s, "get_dict")
            q = some_dict(I, "later property", [k for k in KEYS if k not in LAID])
            qe = dict(I.get(q).ent)
            call(I, s, "set_property", q)
            want = {k: chain(I, [qe.get(k), pe.get(k), W.orig[A].get(k)]) for k in KEYS}
            if again == "other selected":
                e, _ = raised(I, lambda: call(I, s, "select_printer", B))
                if e is None:
                    call(I, s, "get_dict")
                    call(I, s, "select_printer", A)
            d = dict(I.get(I.force(call(I, s, "get_dict"))).ent)
            compare_chosen(I, d, want, [k for k in KEYS if k not in LAID], "last property of the selected printer wins")
            for k in AX:
                I.oblige(same_entry(I, d.get(k), (TRUE, init[k])), f"setup dictionary: {k}")
            I.oblige(same_entry(I, d.get("printer_name"), (TRUE, A)), "setup dictionary: printer_name")
            frame(I, W, s, but=(A, B))
    return fn


def chain(I, es):
    return [e for e in es if e is not None]


def choose(I, over, base):
    return chain(I, [over, base])


def compare_chosen(I, got, want, keys, what):
    """want: entries in order of precedence."""
    for k in keys:
        none, e = TRUE, got.get(k)
        for w in want[k]:
            c = z_and([none, w[0]])
            I.oblige(z_or([z_not(c), z_and([e[0], same_value(I, e[1], w[1])]) if e is not None else FALSE]), f"{what}: {'an unknown key' if k == OTHER else k}")
            none = z_and([none, z_not(w[0])])
        I.oblige(z_or([z_not(none), z_not(e[0]) if e is not None else TRUE]), f"{what}: {'an unknown key' if k == OTHER else k} only if set")


def u_dict(cue, again):
    """get_dict, whatever earlier calls have left in the preset."""
    def fn(I):
        W = World(I)
        c = I.str_("cue") if cue else None
        s, init = setup_in(I, W, A, c)
        if again:
            call(I, s, "get_dict")
            init = {k: real(I, "new initial " + k, ANYNUM) for k in AX}
            p = tuple(init.values()) if again == "tuple" else I.new_dict(dict(init))
            e, _ = raised(I, lambda: call(I, s, "set_initial_position", p))
            I.oblige(TRUE if e is None else FALSE, "a complete initial position is accepted")
            if e is not None:
                return
        check_dict(I, W, s, A, init, c, W.orig[A])
        frame(I, W, s, but=(A,))
        check_dict(I, W, s, A, init, c, W.orig[A])
        frame(I, W, s, but=(A,))
    return fn


def u_initial(form):
    """Incomplete initial positions are rejected and leave the stored one alone."""
    def fn(I):
        W = World(I)
        s, init = setup_in(I, W, A, None)
        if form == "dict":
            g = {k: I.bool_("given " + k) for k in AX}
            vals = {k: real(I, "new " + k, ANYNUM) for k in AX}
            p = I.alloc(HDict({k: (g[k], vals[k]) for k in AX}))
            e, _ = raised(I, lambda: call(I, s, "set_initial_position", p))
            full = z_and(list(g.values()))
            I.oblige(full if e is None else z_not(full), "an initial position is accepted exactly if it is complete")
        else:
            p = None if form == "nothing" else tuple(real(I, f"new {i}", ANYNUM) for i in range(form)) if isinstance(form, int) else I.str_("text")
            e, _ = raised(I, lambda: call(I, s, "set_initial_position", p))
            I.oblige(TRUE if e is not None else FALSE, "an incomplete initial position is rejected")
        if e is not None:
            check_dict(I, W, s, A, init, None, W.orig[A])
        frame(I, W, s, but=(A,))
    return fn


def u_two(form, fresh):
    """What is set on one setup is not seen by another one, made before or after."""
    def fn(I):
        W = World(I, always=("firmware",))
        V = World(I, always=("firmware",))      # another load of a file gives other dictionaries
        I.contracts[W.loads.target] = W.loads
        s, _ = setup_in(I, W, A, I.str_("cue"), not fresh)
        I.contracts[V.loads.target] = V.loads
        I.assume(V.has[A])
        kw = {"presets_file": "presets.yaml", "printer": A}
        early = I.instantiate(cls(I, "gcode_interpreter:setup"), [], kw)
        vals = {k: real(I, "later " + k, ANYNUM) for k in AX}
        call(I, s, "set_initial_position", tuple(vals.values()) if form == "tuple" else I.new_dict(dict(vals)))
        call(I, s, "set_property", some_dict(I, "property", [k for k in KEYS if k not in LAID]))
        call(I, s, "get_dict")
        check_dict(I, V, early, A, {k: Num(0, INT) for k in AX}, None, V.orig[A])
        U = World(I, always=("firmware",))
        I.assume(U.has[A])
        late = I.instantiate(cls(I, "gcode_interpreter:setup"), [], kw)
        check_dict(I, U, late, A, {k: Num(0, INT) for k in AX}, None, U.orig[A])
    return fn


def bare(I):
    return I.alloc(HInst(cls(I, "gcode_interpreter:simulation"), {}, False))


def u_check(I):
    d = some_dict(I, "setup")
    ent = dict(I.get(d).ent)
    e, _ = raised(I, lambda: call(I, bare(I), "check_initial_setup", d))
    ok = z_and([ent[k][0] for k in REQ] + [z_not(ent[OTHER][0])])
    I.oblige(ok if e is None else z_not(ok), "a setup is accepted exactly if every required key is present and no unknown one")
    compare(I, dict(I.get(d).ent), ent, KEYS, "checking changes nothing")


def sim_stubs(skip=("check_initial_setup", "get_dict")):
    return [c for c in init_stubs() if c.target.split(".")[-1] not in skip]


def u_sim(named, unit):
    """simulation.__init__ with a setup: accepted exactly if the setup is valid, the name fits and the unit is known."""
    def fn(I):
        W = World(I)
        c = I.str_("cue")
        s, init = setup_in(I, W, A, c if named != "same" else None)
        kw = {"gcode_path": "x.gcode", "initial_machine_setup": s, "output_unit_system": unit}
        if named is not None:
            kw["machine_name"] = A if named == "same" else B if named == "other" else named
        e, sim = raised(I, lambda: I.instantiate(cls(I, "gcode_interpreter:simulation"), [], kw))
        o = W.orig[A]
        valid = z_and([o[k][0] for k in REQ if k not in LAID] + [z_not(o[OTHER][0])])
        if named not in (None, "same") or unit not in SYSTEMS:
            valid = FALSE
        I.oblige(valid if e is None else z_not(valid), "a simulation is created exactly from a valid setup whose printer has the given name, with a known unit system")
        frame(I, W, s, but=(A,))
        if e is None:
            want = dict(o)
            for k in AX:
                want[k] = (TRUE, init[k])
            if named != "same":
                want["layer_cue"] = (TRUE, c)
            want["printer_name"] = (TRUE, A)
            compare(I, dict(I.get(I.force(attr(I, sim, "initial_machine_setup"))).ent), want, KEYS, "the simulation uses the setup dictionary")
            I.oblige(same_value(I, attr(I, sim, "firmware"), o["firmware"][1]), "the simulation uses the firmware of the setup")
    return fn


def u_sim_default(named):
    """simulation.__init__ without a setup: the named printer of the default presets, nothing else."""
    def fn(I):
        W = World(I, always=("firmware",))
        kw = {"gcode_path": "x.gcode"}
        if named:
            kw["machine_name"] = A
        e, sim = raised(I, lambda: I.instantiate(cls(I, "gcode_interpreter:simulation"), [], kw))
        if not named:
            I.oblige(TRUE if e is not None else FALSE, "a simulation needs a setup or a printer name")
            return
        o = W.orig[A]
        ok = z_and([W.has[A]] + [o[k][0] for k in REQ if k not in LAID] + [z_not(o[OTHER][0])])
        I.oblige(ok if e is None else z_not(ok), "a simulation by name is created exactly if the default presets hold a valid preset of that name")
        if e is None:
            want = dict(o)
            for k in AX:
                want[k] = (TRUE, Num(0, INT))
            want["printer_name"] = (TRUE, A)
            compare(I, dict(I.get(I.force(attr(I, sim, "initial_machine_setup"))).ent), want, KEYS, "the simulation uses the preset")
    return fn


def units():
    out = []
    for printer in (True, False):
        for cue in (True, False):
            out.append(Unit(f"new setup {'with' if printer else 'without'} a printer, {'with' if cue else 'without'} a cue", u_init(printer, cue), merge=True))
    for before in (None, A):
        out.append(Unit(f"select_printer {'first' if before is None else 'again'}", u_select(before), merge=True))
    for again in (None, "", "queried", "other selected"):
        out.append(Unit(f"set_property {'once' if again is None else 'twice ' + again}", u_property(again if again is None else again or "twice"), merge=True))
    for cue in (True, False):
        for again in (None, "tuple", "dict"):
            out.append(Unit(f"get_dict {'with' if cue else 'without'} a cue{', initial position set again as ' + again if again else ''}", u_dict(cue, again), merge=True))
    for form in ("dict", "nothing", "text", 0, 1, 2, 3, 5, 6):
        out.append(Unit(f"initial position: {form}", u_initial(form), merge=True))
    for form in ("tuple", "dict"):
        for fresh in (False, True):
            out.append(Unit(f"two setups, {form}{' first' if fresh else ''}", u_two(form, fresh), merge=True))
    out.append(Unit("check of a setup", u_check, merge=True, budget=60000))
    for named in (None, "same", "other"):
        for unit in SYSTEMS + ("?unknown",):
            out.append(Unit(f"simulation with a setup, {named or 'no'} name, unit system {unit}", u_sim(named, unit), contracts=sim_stubs(), merge=True, budget=60000))
    for named in (A[:-2], A[1:], A + " 2", A.upper()):
        out.append(Unit(f"simulation with a setup, name {named!r}", u_sim(named, "SImm"), contracts=sim_stubs(), merge=True, budget=60000))
    for named in (True, False):
        out.append(Unit(f"simulation without a setup, {'with' if named else 'without'} a name", u_sim_default(named), contracts=sim_stubs(), merge=True, budget=60000))
    return out
