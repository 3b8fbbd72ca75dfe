"""C01: planner_block.move_maker2 yields a consistent motion profile for every move."""

from .common import FLT, INT, NPF, HArr, HInst, HList, Num, attr, call, cls, cmp, num, real, ZERO
from .move import Move, block, check_profile
from pyvc.unit import Unit


def u_move(kind, prev):
    def fn(I):
        m = Move(I, kind, prev)
        v_end = real(I, "vend")
        I.assume(cmp(I, v_end, ">=", ZERO))
        I.assume(cmp(I, v_end, "<=", m.speed))
        b = block(I, state_A=m.A, state_B=m.B, _prev_block=m.prev, segments=I.new_list(()), direction=I.new_arr(tuple(m.u)), valid=True)
        call(I, b, "move_maker2", v_end=v_end)
        segs = I.iterate(call(I, b, "get_segments"))
        check_profile(I, m, segs, v_end)
    return fn


def units():
    return [Unit(f"move_maker2 [{k}, {'after a block' if p else 'first block'}]", u_move(k, p), parts=6 if k == "travel" and p else 1) for k in ("travel", "extrusion") for p in (True, False)]
