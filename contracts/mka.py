"""The axis loop of the MKA model: the common factor after some axes."""

import ast

import z3

from .common import *  # noqa: F401,F403
from .common import FALSE, FLT, INT, NPF, TRUE, ZERO, HInst, Num, Poly, Ref, cmp, eqn, mul, num, real, sub, z_and, z_not, z_or, zb
from pyvc.values import BreakEx, ContinueEx, HFrame, PathDead, Unsupported

ONE = Num(1, INT)


def jump(I, e, x):
    """Jump of one axis from entry speed e to exit speed x: the difference, or the larger of both after a reversal."""
    ez, xz = e.zr(), x.zr()
    ab = lambda t: z3.If(t >= 0, t, -t)  # noqa: E731
    t = z3.If(z3.Or(z3.And(ez > 0, xz > 0), z3.And(ez < 0, xz < 0)), ab(ez - xz), z3.If(ab(ez) >= ab(xz), ab(ez), ab(xz)))
    return Num(Poly.atom(t), FLT)


class AxisLoop:
    """After some axes: the factor is min(1, limit / largest jump so far), and the flag tells whether it is below one."""

    name = "the factor is the largest one for which no axis so far jumps by more than the limit"

    def match(self, I, s, fr):
        return False

    def match_for(self, I, s, fr, it):
        if not (isinstance(s, ast.For) and len(it) == 4 and not s.orelse):
            return False
        vs = I.get(fr).vars
        return all(nm in vs for nm in ("v_factor", "lim_flag", "small_speed_fac")) and all(isinstance(x, tuple) and len(x) == 2 for x in it)

    def state(self_, I, fr, /, **kw):
        o = I.get(fr)
        vs = dict(o.vars)
        vs.update(kw)
        I.st.heap[fr.id] = HFrame(vs, o.parent, o.qualname)

    def jumps(self, I, fr, it):
        sf = I.num(I.force(I.get(fr).vars["small_speed_fac"]))
        return [jump(I, mul(I, num(I, e), sf), num(I, x)) for e, x in it]

    def facts(self, I, fr, lim, Js):
        f = num(I, I.get(fr).vars["v_factor"])
        flag = zb(I.truth(I.get(fr).vars["lim_flag"]))
        out = [cmp(I, f, ">=", ZERO), cmp(I, f, "<=", ONE), flag == cmp(I, f, "!=", ONE)]
        out += [cmp(I, mul(I, f, j), "<=", lim) for j in Js]
        out += [z_or([eqn(I, f, ONE)] + [z_and([cmp(I, j, ">", lim), eqn(I, mul(I, f, j), lim)]) for j in Js])]
        return out

    NAMES = ("the factor is not negative", "the factor is at most one", "the flag tells whether the factor is below one")

    def run_for(self, I, s, fr, it):
        from pyvc.loops import stored_names
        from pyvc.values import Havoc

        selfv = I.get(fr).vars.get("self")
        lim = num(I, I.getattr(selfv, "jerk"))
        Js = self.jumps(I, fr, it)
        for g in self.facts(I, fr, lim, []):
            I.oblige(g, "loop invariant before the first axis")
        last = I.decide(2) == 1
        f, b = real(I, "factor"), I.bool_("limited")
        for nm in stored_names([s.target] + list(s.body)):
            self.state(I, fr, **{nm: Havoc(nm)})
        self.state(I, fr, v_factor=f, lim_flag=b)
        if last:
            for g in self.facts(I, fr, lim, Js):
                I.assume(g)
            I.st.ghost["mka"] = (f, Js, lim)
            return
        # one more axis, whatever its speeds and whatever happened before; M: largest jump so far (zero before the first axis)
        I.oblige(cmp(I, lim, ">=", ZERO), "the jerk limit is not negative")
        I.oblige(cmp(I, num(I, I.get(fr).vars["small_speed_fac"]), ">=", ZERO), "the speed scale is not negative")
        done = I.__dict__.setdefault("axis_loops", set())
        if id(s) in done:
            raise PathDead()
        done.add(id(s))

        def one(lim=lim):
            I.st.pc, I.st.rules, I.st.positive, I.st.model = [], {}, frozenset(), None
            M, e, x, sf, lim = real(I, "largest"), real(I, "entry"), real(I, "exit"), real(I, "scale"), real(I, "limit")
            for y in (M, sf, lim):
                I.assume(cmp(I, y, ">=", ZERO))
            read = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name)}
            keep = {"small_speed_fac": sf, "v_factor": f, "lim_flag": b, "self": I.alloc(HInst(I.get(selfv).cls, {"jerk": lim}, True, "opaque-fields"))}
            for nm, v in I.get(fr).vars.items():
                if nm in keep:
                    self.state(I, fr, **{nm: keep[nm]})
                elif nm in read and not isinstance(v, Havoc):
                    raise Unsupported(f"axis loop reads {nm}")
            for g in self.facts(I, fr, lim, [M]):
                I.assume(g)
            before = dict(I.st.heap)
            I.assign(s.target, (e, x), fr)
            try:
                I.exec_block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                raise Unsupported("axis loop is left early") from None
            for i, old in before.items():
                if i != fr.id and I.st.heap.get(i) is not old and I.st.heap.get(i) != old:
                    raise Unsupported("axis loop with side effects")
            J = jump(I, mul(I, e, sf), x)
            N = real(I, "largest")
            I.assume(N.zr() == z3.If(J.zr() > M.zr(), J.zr(), M.zr()))
            gs = self.facts(I, fr, lim, [N])
            for i, g in enumerate(gs):
                I.oblige(g, "loop invariant: " + (self.NAMES[i] if i < 3 else "no axis so far exceeds the limit" if i < len(gs) - 1 else "the factor is the largest such one"))

        for o in I.explore(one):
            if o.kind != "normal":
                raise Unsupported("the axis loop is left")
        raise PathDead()
