"""C09: unit systems (scaling factors, get_values in every system, initial position, rejection of unknown systems)."""

from .traj import *  # noqa: F401,F403
from .traj import *
from . import c08, c12
from pyvc.unit import Unit

IN_FACTORS = {k: 1 / v for k, v in FACTORS.items()}


def factor_is(I, got, want, what):
    I.oblige(eqn(I, num(I, got), Num(want, FLT)), what)


def u_init(system):
    def fn(I):
        s = setup_obj(I)
        u = I.str_("unit") if system is None else system
        if system is None:
            for k in SYSTEMS:
                I.assume(z_not(zb(I.eq(u, k))))
        kw = {"gcode_path": "x.gcode", "initial_machine_setup": s}
        if system != "default":
            kw["output_unit_system"] = u
        e, sim = raised(I, lambda: I.instantiate(cls(I, "gcode_interpreter:simulation"), [], kw))
        if system is None:
            I.oblige(TRUE if e is not None else FALSE, "an unknown output unit system is rejected")
            return
        I.oblige(TRUE if e is None else FALSE, "a known output unit system is accepted")
        if e is not None:
            return
        own = "SImm" if system == "default" else system
        factor_is(I, call(I, sim, "get_scaling_factor"), FACTORS[own], "the simulation's own unit system is used by default")
        for k in SYSTEMS:
            factor_is(I, call(I, sim, "get_scaling_factor", output_unit_system=k), FACTORS[k], "the requested unit system takes precedence")
            factor_is(I, call(I, sim, "get_scaling_factor"), FACTORS[own], "the simulation's own unit system is not changed by a request for another")
        x = I.str_("unit2")
        for k in SYSTEMS:
            I.assume(z_not(zb(I.eq(x, k))))
        e, _ = raised(I, lambda: call(I, sim, "get_scaling_factor", output_unit_system=x))
        I.oblige(TRUE if e is not None else FALSE, "an unknown requested unit system is rejected")
    return fn


class LoadSetup:
    target = P + "gcode_interpreter.setup.load_setup"

    def apply(self, I, v):
        return I.new_dict({"printer": I.new_dict({"firmware": None})})


def new_setup(I):
    return I.instantiate(cls(I, "gcode_interpreter:setup"), [], {"presets_file": "presets.yaml"})


AX = "XYZE"


def u_initial(system, form):
    def fn(I):
        st = new_setup(I)
        vals = [real(I, "p" + k, ANYNUM) for k in AX]
        p = tuple(vals) if form == "tuple" else I.new_dict(dict(zip(AX, vals)))
        u = system
        if system == "unknown":
            u = I.str_("unit")
            for k in SYSTEMS:
                I.assume(z_not(zb(I.eq(u, k))))
        kw = {} if system == "default" else {"input_unit_system": u}
        e, _ = raised(I, lambda: call(I, st, "set_initial_position", p, **kw))
        if system == "unknown":
            I.oblige(TRUE if e is not None else FALSE, "an unknown input unit system is rejected")
            return
        I.oblige(TRUE if e is None else FALSE, "a complete initial position is accepted")
        if e is not None:
            return
        f = Num(IN_FACTORS["SImm" if system == "default" else system], FLT)
        d = attr(I, st, "initial_position")
        I.setattr(st, "printer_select", "printer")
        out = call(I, st, "get_dict")
        for k, v in zip(AX, vals):
            I.oblige(eqn(I, num(I, I.getitem(d, k)), mul(I, f, v)), "the initial position is stored in millimetres")
            I.oblige(eqn(I, num(I, I.getitem(out, k)), mul(I, f, v)), "the setup dictionary holds the initial position in millimetres")
        factor_is(I, call(I, st, "get_scaling_factor"), 1, "the setup's own unit system is not changed by an explicit one")
    return fn


def u_values(own, asked):
    """get_values in a unit system: exactly the factor times the values of C08."""
    def fn(I):
        tr, sim, t = c08.sim_query(I, own, None)
        kw = {} if asked is None else {"output_unit_system": asked}
        before = dict(I.get(sim).fields)
        r = I.iterate(I.force(call(I, sim, "get_values", t=t, **kw)))
        unchanged(I, sim, before)
        _, i = I.st.ghost["hit"]
        c = {k: [tr.fun(f, i.t) for f in fs] for k, fs in tr.f.items()}
        tb, te = tr.fun(tr.tb, i.t), tr.fun(tr.te, i.t)
        f = Num(FACTORS[asked or own], FLT)
        for kind, v in zip(("velocity", "position"), r):
            g = [num(I, x) for x in I.iterate(v)]
            I.oblige(TRUE if len(g) == 4 else FALSE, f"four {kind} components")
            c08.check_interp(I, g, kind, tb, te, t, c, f, "scaled: ")
    return fn


def units():
    out = [Unit(f"simulation with unit system {s or 'unknown'}", u_init(s), contracts=init_stubs()) for s in SYSTEMS + ("default", None)]
    for form in ("tuple", "dict"):
        for s in SYSTEMS + ("default", "unknown"):
            out.append(Unit(f"setup.set_initial_position({form}) in {s}", u_initial(s, form), contracts=[LoadSetup()]))
    for own in SYSTEMS:
        for asked in SYSTEMS + (None,):
            if asked is None or own == "SImm" or asked != own:
                out.append(Unit(f"get_values of a {own} simulation in {asked or 'its own system'}", u_values(own, asked), contracts=[FindSegment(), c08.UNPACK]))
    for own, asked in (("SI", None), ("inch", None), ("SImm", "SI"), ("SImm", "inch"), ("SI", "inch"), ("inch", "SImm")):
        out.append(Unit(f"extrusion_extent of a {own} simulation in {asked or 'its own system'}", c12.u_extent(own, asked)))
        out.append(Unit(f"extrusion_max_vel of a {own} simulation in {asked or 'its own system'}", c12.u_maxvel(own, asked), contracts=[c12.BlockMaxVel()]))
    return out
