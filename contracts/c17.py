"""C17: extrusion width conserves volume (simulation.get_width on top of the contract of get_values, C08/C09)."""

import math

from .traj import *  # noqa: F401,F403
from .traj import *
from pyvc.unit import Unit


class GetValues:
    """get_values(t, system): four velocity and four position components, scaled to the unit system (C08, C09)."""

    target = P + "gcode_interpreter.simulation.get_values"

    def apply(self, I, v):
        u = I.force(v.get("output_unit_system"))
        if u is None:
            u = I.force(I.getattr(v["self"], "output_unit_system"))
        if u not in FACTORS:
            raise Unsupported("unit system")
        t = num(I, v["t"])
        f = Num(FACTORS[u], FLT)
        out = []
        for kind in "vp":
            out.append(I.new_list([mul(I, f, value(I, kind, x, t)) for x in "xyze"]))
        return tuple(out)


def value(I, kind, axis, t):
    g = z3.Function(f"{kind}_{axis}", z3.RealSort(), z3.RealSort())
    return Num(Poly.atom(g(t.zr())), NPF)


def u_width(system):
    def fn(I):
        sim = simulation(I, system)
        before = I.get(sim)
        t, h, d = real(I, "t", ANYNUM), real(I, "h", ANYNUM), real(I, "d", ANYNUM)
        I.assume(cmp(I, h, ">", ZERO))
        I.assume(cmp(I, d, ">", ZERO))
        w = num(I, call(I, sim, "get_width", t=t, extrusion_h=h, filament_dia=d))
        f = Num(FACTORS[system], FLT)
        v = [mul(I, f, value(I, "v", x, t)) for x in "xyze"]
        s2 = ssum(I, [sq(I, x) for x in v[:3]])
        feed = Num(I.sqrt(I.norm(s2.t)), FLT)
        area = mul(I, Num(Fraction(repr(math.pi)) / 4, FLT), sq(I, d))
        I.oblige(z3.Implies(cmp(I, s2, ">", ZERO), eqn(I, mul(I, mul(I, w, h), feed), mul(I, area, v[3]))),
                 "width times height times travel speed is the extruded volume rate")
        I.oblige(z3.Implies(eqn(I, s2, ZERO), eqn(I, w, ZERO)), "width is zero without travel")
        I.oblige(TRUE if I.get(sim) is before else same_obj_fields(I, sim, before.fields), "the simulation is not changed")
    return fn


def units():
    return [Unit(f"get_width in {s}", u_width(s), contracts=[GetValues()]) for s in SYSTEMS]
