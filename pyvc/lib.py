"""Models of the built-ins, numpy, math and of the (opaque) remaining libraries."""

import math
from fractions import Fraction

import z3

from . import guarded, texts
from .terms import Poly, compare
from .values import (
    FLT, INT, NPF, BMeth, BoundMethod, Builtin, ClassVal, FuncVal, HArr, HDict, HFile, HFrame, HInst, HList,
    ModuleVal, Num, Opaque, PathDead, Phi, Ref, SStr, StrSort, SymSeq, Unsupported,
)

T = {}
EXC = {}
BUILTINS = {}
_str_consts = {}


def _cls(name, bases=()):
    return ClassVal(name, list(bases), {}, "builtins", name, True)


OBJECT = _cls("object")
T["object"] = OBJECT
T["int"] = _cls("int", [OBJECT])
T["bool"] = _cls("bool", [T["int"]])
T["float"] = _cls("float", [OBJECT])
T["np.float64"] = _cls("np.float64", [T["float"]])
for _n in ("str", "NoneType", "tuple", "list", "dict", "set", "type"):
    T[_n] = _cls(_n, [OBJECT])
T["np.ndarray"] = _cls("np.ndarray", [OBJECT])
T["frozenset"] = _cls("frozenset", [OBJECT])

_EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "KeyboardInterrupt": "BaseException",
    "SystemExit": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception",
    "IndexError": "LookupError", "KeyError": "LookupError", "NameError": "Exception", "TypeError": "Exception",
    "ValueError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "RecursionError": "RuntimeError", "OSError": "Exception", "FileNotFoundError": "OSError",
    "StopIteration": "Exception", "UserWarning": "Exception",
}
for _k, _b in _EXC_TREE.items():
    EXC[_k] = ClassVal(_k, [EXC[_b]] if _b else [OBJECT], {}, None, _k, False)
EXC["UnboundLocalError"] = ClassVal("UnboundLocalError", [EXC["NameError"]], {}, None, "UnboundLocalError", False)


def is_exception(cls):
    return cls.issub(EXC["BaseException"])


def install(I):
    pass


def str_const(I, s):
    c = _str_consts.get(s)
    if c is None:
        c = z3.Const("str:" + s, StrSort)
        # pairwise distinct literals
        _str_consts[s] = c
    for o, d in list(_str_consts.items()):
        if o != s:
            I.assume(c != d if s < o else d != c)
    return c


# ---------------------------------------------------------------- arrays


def to_data(I, v, depth=0):
    """Nested tuple of Num from lists / tuples / arrays / numbers."""
    v = I.force(v)
    n = I.num(v)
    if n is not None:
        return Num(n.t, NPF)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, HArr):
            return o.data
        if isinstance(o, HList) and o.pre is None:
            return tuple(to_data(I, x, depth + 1) for x in o.items)
    if isinstance(v, tuple):
        return tuple(to_data(I, x, depth + 1) for x in v)
    if v is None:
        I.raise_py("TypeError", "array of None")
    raise Unsupported("array of a symbolic sequence")


def is_symseq(I, v):
    if isinstance(v, SymSeq):
        return v
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, HList) and o.pre is not None:
            s = I.maybe_concrete(I.list_view(o))
            return s if isinstance(s, SymSeq) else None
        if isinstance(o, HInst) and o.cls is SYMARR:
            return o.fields["seq"]
    return None


SYMARR = ClassVal("ndarray", [T["np.ndarray"]], {}, "numpy", "symarray", False)


def _mask_items(I, v):
    def flat(x):
        return [z for y in x for z in flat(y)] if isinstance(x, tuple) else [x]

    return flat(I.get(v).fields["mask"])


def _mask_bool(I, a, k):
    it = _mask_items(I, a[0])
    if len(it) != 1:
        I.raise_py("ValueError", "The truth value of an array with more than one element is ambiguous")
    return it[0]


def _mask_not(I, x):
    from .interp import z_not

    return tuple(_mask_not(I, y) for y in x) if isinstance(x, tuple) else (not x) if isinstance(x, bool) else z_not(x)


BOOLARR = ClassVal("ndarray", [T["np.ndarray"]], {
    "__bool__": Builtin("ndarray.__bool__", _mask_bool),
    "__len__": Builtin("ndarray.__len__", lambda I, a, k: Num(len(I.get(a[0]).fields["mask"]), INT)),
    "__invert__": Builtin("ndarray.__invert__", lambda I, a, k: boolarr(I, _mask_not(I, I.get(a[0]).fields["mask"]))),
    "all": Builtin("ndarray.all", lambda I, a, k: I.all_(_mask_items(I, a[0])) if len(a) == 1 and not k else _no("all with an axis")),
    "any": Builtin("ndarray.any", lambda I, a, k: b_any(I, [tuple(_mask_items(I, a[0]))], {}) if len(a) == 1 and not k else _no("any with an axis")),
    "tolist": Builtin("ndarray.tolist", lambda I, a, k: I.new_list(_mask_items(I, a[0])) if not any(isinstance(x, tuple) for x in I.get(a[0]).fields["mask"]) else _no("tolist")),
}, "numpy", "boolarray", False)
ARRAYS = (BOOLARR, SYMARR)


def _no(what):
    raise Unsupported(what)


def boolarr(I, mask):
    return I.alloc(HInst(BOOLARR, {"mask": tuple(mask)}, False, "opaque-fields"))


def arr_compare(I, op, a, b):
    """Elementwise comparison if one operand is an array of numbers, else None."""
    def arr(x):
        return isinstance(x, Ref) and isinstance(I.get(x), HArr)

    if not arr(a) and not arr(b) or a is None or b is None:
        return None
    for x in (a, b):
        x = I.force(x)
        if not (arr(x) or I.num(x) is not None or isinstance(x, tuple) or isinstance(x, Ref) and isinstance(I.get(x), HList)):
            return None

    def rec(x, y):
        if isinstance(x, Num) and isinstance(y, Num):
            return I.cmp_num(x, y, op)
        if isinstance(x, Num):
            return tuple(rec(x, z) for z in y)
        if isinstance(y, Num):
            return tuple(rec(z, y) for z in x)
        if len(x) != len(y) or any(isinstance(p, Num) != isinstance(q, Num) for p, q in zip(x, y)):
            raise Unsupported("comparison of arrays of different shapes")
        return tuple(rec(p, q) for p, q in zip(x, y))

    return boolarr(I, rec(to_data(I, a), to_data(I, b)))


def np_where(I, a, kw):
    if len(a) != 3:
        raise Unsupported("where")
    c = I.force(a[0])
    if not (isinstance(c, Ref) and isinstance(I.get(c), HInst) and I.get(c).cls is BOOLARR):
        raise Unsupported("where")
    mask = I.get(c).fields["mask"]

    def pick1(c, x, y):
        from .interp import z_not

        if isinstance(c, tuple):
            n = len(c)
            xs, ys = [v if isinstance(v, tuple) else (v,) * n for v in (x, y)]
            if len(xs) != n or len(ys) != n:
                raise Unsupported("where of different shapes")
            return tuple(pick1(*t) for t in zip(c, xs, ys))
        if not isinstance(x, Num) or not isinstance(y, Num):
            raise Unsupported("where of different shapes")
        if isinstance(c, bool) or z3.is_true(c) or z3.is_false(c):
            return x if c is True or not isinstance(c, bool) and z3.is_true(c) else y
        return I.merge_values([(c, x), (z_not(c), y)])

    return I.new_arr(pick1(mask, to_data(I, a[1]), to_data(I, a[2])))


def as_array(I, v, kw):
    """Array made of an abstract list or array, by its own contract."""
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, HList) and o.pre is not None and hasattr(o.pre.tag, "as_array"):
            return o.pre.tag.as_array(I, o, kw)
        if isinstance(o, HInst) and o.cls is not SYMARR:
            m, _ = o.cls.lookup("__asarray__")
            if m is not None:
                return I.call(BoundMethod(m, v), [], kw)
    return None


def to_arr(I, v):
    v = I.force(v)
    if isinstance(v, Ref) and isinstance(I.get(v), HArr):
        return v
    s = is_symseq(I, v)
    if s is not None:
        return I.alloc(HInst(SYMARR, {"seq": s}))
    if isinstance(v, Ref) and isinstance(I.get(v), HList) and I.get(v).pre is not None:
        v = I.new_list(I.maybe_concrete(I.list_view(I.get(v))))
    d = to_data(I, v)
    if isinstance(d, Num):
        raise Unsupported("0-d array")
    return I.new_arr(d)


def _shape(d):
    if isinstance(d, Num):
        return ()
    if not d:
        return (0,)
    return (len(d),) + _shape(d[0])


def _map2(I, op, a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return I.binop_num(op, a, b)
    if isinstance(a, Num):
        return tuple(_map2(I, op, a, y) for y in b)
    if isinstance(b, Num):
        return tuple(_map2(I, op, x, b) for x in a)
    sa, sb = _shape(a), _shape(b)
    if len(sa) > len(sb):
        return tuple(_map2(I, op, x, b) for x in a)
    if len(sb) > len(sa):
        return tuple(_map2(I, op, a, y) for y in b)
    if len(a) != len(b):
        if len(a) == 1:
            return tuple(_map2(I, op, a[0], y) for y in b)
        if len(b) == 1:
            return tuple(_map2(I, op, x, b[0]) for x in a)
        I.raise_py("ValueError", "operands could not be broadcast")
    return tuple(_map2(I, op, x, y) for x, y in zip(a, b))


def arr_data(I, v):
    d = to_data(I, v)
    return d


def arr_binop(I, op, a, b):
    r = _map2(I, op, to_data(I, a), to_data(I, b))
    return r if isinstance(r, Num) else I.new_arr(r)


def _flat(d):
    if isinstance(d, Num):
        return [d]
    out = []
    for x in d:
        out += _flat(x)
    return out


def arr_index(I, ref, key):
    from .interp import Slice

    d = I.get(ref).data
    if isinstance(key, tuple):
        x = d
        for i, k in enumerate(key):
            if isinstance(k, Slice):
                if k.a is None and k.b is None and k.c is None:
                    rest = key[i + 1:]
                    if not rest:
                        break
                    x = tuple(_idx_chain(I, row, rest) for row in x)
                    break
                raise Unsupported("array slice")
            x = _idx1(I, x, k)
        return x if isinstance(x, Num) else I.new_arr(x)
    if isinstance(key, Slice):
        def c(x):
            return None if x is None else int(I.num(I.force(x)).const)

        return I.new_arr(d[c(key.a):c(key.b):c(key.c)])
    x = _idx1(I, d, key)
    return x if isinstance(x, Num) else I.new_arr(x)


def _idx_chain(I, x, keys):
    for k in keys:
        x = _idx1(I, x, k)
    return x


def _idx1(I, x, k):
    k = I.force(k)
    n = I.num(k)
    if n is None or n.const is None:
        raise Unsupported("array index")
    i = int(n.const)
    if isinstance(x, Num) or not -len(x) <= i < len(x):
        I.raise_py("IndexError", "array index")
    return x[i]


def invert(I, v):
    if isinstance(v, Ref) and isinstance(I.get(v), HInst):
        m, _ = I.get(v).cls.lookup("__invert__")
        if m is not None:
            return I.call(BoundMethod(m, v), [], {})
    raise Unsupported("invert")


def bitop(I, op, a, b):
    a, b = I.force(a), I.force(b)
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        from .interp import z_and, z_or, zb

        if op == "BitAnd":
            return I.all_([a, b])
        if op == "BitOr":
            return z3.simplify(z_or([zb(a), zb(b)]))
    if op == "BitOr" and (a is None or b is None or isinstance(a, (ClassVal, Opaque)) or isinstance(b, (ClassVal, Opaque))):
        return Opaque("type")
    if op == "BitOr" and all(isinstance(x, Ref) and isinstance(I.get(x), HDict) for x in (a, b)):
        r = I.alloc(I.get(a))
        method(I, r, "update", [b], {})
        return r
    raise Unsupported(f"operator {op}")


def fstring(I, parts):
    """A string with symbolic parts; note holds the parts."""
    s = I.str_("fstr")
    return SStr(s.z, ("parts", tuple(parts)))


def concat_seqs(I, oa, ob):
    from .interp import compare as _c  # noqa: F401

    a, b = (I.list_view(o) if o.pre is not None else None for o in (oa, ob))
    if a is None:
        items = oa.items
        k = len(items)
        n = Poly.const(k) + b.n

        def get(J, i):
            d = J.norm(i)
            if d.is_const() and d.const_value() < k:
                return items[int(d.const_value())]
            for j in range(k):
                if J.branch(compare(d - Poly.const(j), "==", J.st.positive)):
                    return items[j]
            return b.get(J, J.norm(d - Poly.const(k)))

        return I.alloc(HList((), SymSeq(n, get, None), "list"))

    def get2(J, i):
        if J.branch(compare(J.norm(i - a.n), "<", J.st.positive)):
            return a.get(J, i)
        return b.get(J, J.norm(i - a.n))

    return I.alloc(HList((), SymSeq(a.n + b.n, get2, ConcatTag(a, b)), "list"))


class ConcatTag:
    def __init__(self, a, b):
        self.a, self.b = a, b


class FilterTag:
    """Subsequence of src selected by cond: src index of element j is sigma(j)."""

    def __init__(self, src, cond, sigma, rank):
        self.src, self.cond, self.sigma, self.rank = src, cond, sigma, rank


class MapTag:
    def __init__(self, base):
        self.base = base

    def sliced(self, lo):
        return self


class EnumTag(MapTag):
    pass


class RangeTag:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class ZipTag:
    def __init__(self, parts):
        self.parts = parts


def snapshot(I, fr):
    """Copy of a frame chain below the module frame."""
    o = I.get(fr)
    if o.parent is None:
        return fr
    p = snapshot(I, Ref(o.parent))
    return I.alloc(HFrame(dict(o.vars), p.id, o.qualname))


def sym_comp(I, seq, gen, frame, elt):
    base = snapshot(I, frame)

    def at(J, idx):
        o = J.get(base) if base.id in J.st.heap else None
        f = J.alloc(HFrame(dict(base_vars), base_parent, base_qn))
        J.assign(gen.target, seq.get(J, idx), f)
        return f

    bo = I.get(base)
    base_vars, base_parent, base_qn = dict(bo.vars), bo.parent, bo.qualname
    from .loops import past

    heap0 = dict(I.st.heap)

    def get(J, idx):
        return past(J, heap0, lambda: elt(at(J, idx)))

    if not gen.ifs:
        return SymSeq(seq.n, get, MapTag(seq.tag))

    def cond(J, idx):
        def ev():
            f = at(J, idx)
            return J.all_([J.truth(J.eval(c, f)) for c in gen.ifs])

        return past(J, heap0, ev)

    return filtered(I, seq, cond, get)


def filtered(I, seq, cond, get):
    """The elements get(i) for the indices i of seq with cond(i), in order."""
    nm = I.fresh_name("flt")
    n = z3.Int(nm + ".n")
    sigma = z3.Function(nm + ".src", z3.IntSort(), z3.IntSort())
    rank = z3.Function(nm + ".rank", z3.IntSort(), z3.IntSort())
    I.assume(n >= 0)
    I.assume(n <= seq.n.to_z3())

    def fget(J, j):
        s = sigma(j.to_z3())
        J.assume(s >= 0)
        J.assume(s < seq.n.to_z3())
        c = cond(J, Poly.atom(s))
        from .interp import zb

        J.assume(zb(c))
        return get(J, Poly.atom(s))

    r = SymSeq(Poly.atom(n), fget, FilterTag(seq, cond, sigma, rank))
    I.st.ghost[("filter", nm)] = r
    return r


def filter_member(I, flt, idx):
    """Instantiate: source index idx satisfying the filter has a rank in the filtered sequence."""
    t = flt.tag
    from .interp import zb

    c = zb(t.cond(I, idx))
    r = t.rank(idx.to_z3())
    I.assume(z3.Implies(c, z3.And(r >= 0, r < flt.n.to_z3(), t.sigma(r) == idx.to_z3())))
    return c, Poly.atom(r)


def dict_from(I, r):
    if isinstance(r, SymSeq):
        raise Unsupported("symbolic dictionary")
    raise Unsupported("dictionary")


# ---------------------------------------------------------------- attributes / methods

LIST_M = {"append", "extend", "count", "index", "copy", "insert", "pop", "remove", "sort", "reverse", "clear", "add", "update", "union"}
DICT_M = {"keys", "items", "values", "get", "update", "copy", "pop", "setdefault", "clear"}
ARR_M = {"dot", "reshape", "argsort", "tolist", "copy", "flatten", "max", "min", "sum", "ravel", "astype", "all", "any"}
STR_M = {"strip", "replace", "format", "split", "encode", "decode", "lower", "upper", "startswith", "endswith", "join", "lstrip", "rstrip", "splitlines", "find", "isdigit"}


def obj_attr(I, ref, o, name):
    if isinstance(o, HList) and name in LIST_M:
        return BMeth(ref, name)
    if isinstance(o, HDict) and name in DICT_M:
        return BMeth(ref, name)
    if isinstance(o, HArr):
        if name in ARR_M:
            return BMeth(ref, name)
        if name == "T":
            return I.new_arr(tuple(zip(*o.data)))
        if name == "shape":
            return tuple(Num(x, INT) for x in _shape(o.data))
        if name == "size":
            return Num(len(_flat(o.data)), INT)
        if name == "ndim":
            return Num(len(_shape(o.data)), INT)
    if isinstance(o, HFile):
        if name in ("write", "close", "read", "readlines", "flush", "__enter__", "__exit__"):
            return BMeth(ref, name)
        if name == "name":
            return o.path
    return None


def class_attr(I, cls, name):
    if name in ("__init__", "__str__", "__repr__"):
        return Builtin("object." + name, lambda I, a, k: None)
    if cls is T["str"] and name in STR_M:
        return Builtin("str." + name, lambda I, a, k: method(I, a[0], name, a[1:], k))
    if cls is T["list"] and name in LIST_M:
        return Builtin("list." + name, lambda I, a, k: method(I, a[0], name, a[1:], k))
    if cls is T["dict"] and name == "fromkeys":
        return Builtin("dict.fromkeys", lambda I, a, k: I.new_dict({I.dict_key(x): (a[1] if len(a) > 1 else None) for x in I.iterate(a[0])}))
    return None


def value_attr(I, v, name):
    if isinstance(v, (str, SStr)) and name in STR_M:
        return BMeth(v, name)
    if isinstance(v, (str, SStr)) and name == "__str__":
        return Builtin("str.__str__", lambda I, a, k: v)
    if isinstance(v, Num):
        if name in ("is_integer", "item", "copy"):
            return BMeth(v, name)
        if name == "real":
            return v
    if isinstance(v, tuple) and name in ("index", "count"):
        return BMeth(v, name)
    if isinstance(v, BoundMethod) and name == "__name__":
        return "method"
    if isinstance(v, FuncVal) and name in ("__name__", "__doc__"):
        return v.qualname
    if isinstance(v, SymSeq) and name in ("count", "index", "copy"):
        return BMeth(v, name)
    return None


def method(I, obj, name, args, kw):
    if isinstance(obj, (str, SStr)):
        return str_method(I, obj, name, args, kw)
    if isinstance(obj, Num):
        if name in ("item", "copy"):
            return obj
        raise Unsupported("number method")
    if isinstance(obj, tuple):
        obj = I.new_list(obj)
    if isinstance(obj, SymSeq):
        obj = I.alloc(HList((), obj))
    o = I.get(obj)
    if isinstance(o, HList):
        return list_method(I, obj, o, name, args, kw)
    if isinstance(o, HDict):
        return dict_method(I, obj, o, name, args, kw)
    if isinstance(o, HFile):
        if name == "readlines":
            return I.alloc(HList((), file_lines(I, o)))
        if name == "write":
            w = I.st.ghost.get("writes", ())
            I.st.ghost["writes"] = w + ((o.path, args[0]),)
            return None
        return Opaque("file")
    if isinstance(o, HArr):
        if name in ("copy",):
            return I.new_arr(o.data)
        if name == "tolist":
            def cv(d):
                return Num(d.t, FLT) if isinstance(d, Num) else I.new_list([cv(x) for x in d])
            return cv(o.data)
        if name == "dot":
            return np_dot(I, [obj, args[0]], {})
        if name == "reshape":
            return np_reshape(I, [obj] + ([args[0]] if len(args) == 1 else [tuple(args)]), {})
        if name in ("flatten", "ravel"):
            return I.new_arr(tuple(_flat(o.data)))
        if name in ("max", "min"):
            return np_ext(name)(I, [obj] + args, kw)
        if name == "sum" and not args and not kw:
            return b_sum(I, [I.new_list(_flat(o.data))], {})
    raise Unsupported(f"method {name}")


def list_method(I, ref, o, name, a, kw):
    if name == "append" or (name == "add" and o.kind == "set"):
        if name == "add":
            raise Unsupported("set.add")
        I.put(ref, HList(o.items + (a[0],), o.pre, o.kind, o.frozen, o.ghost))
        return None
    if name == "extend":
        it = I.iterate(a[0])
        if isinstance(it, list):
            I.put(ref, HList(o.items + tuple(it), o.pre, o.kind, o.frozen, o.ghost))
            return None
        if isinstance(it, SymSeq):
            if o.pre is None and not o.items:
                I.put(ref, HList((), it, o.kind, o.frozen, o.ghost))
                return None
            r = concat_seqs(I, o, HList((), it))
            I.put(ref, I.get(r))
            return None
    if name == "copy":
        return I.alloc(HList(o.items, o.pre, o.kind))
    if o.pre is None or name == "count" and hasattr(o.pre.tag, "count"):
        if name == "count":
            n = Num(0, INT) if o.pre is None else o.pre.tag.count(I, I.force(a[0]))
            for x in o.items:
                c = I.truth(I.eq(x, a[0]))
                n = I.binop_num("+", n, I.num(c))
            return n
        if name == "index":
            for i, x in enumerate(o.items):
                if I.test(I.eq(x, a[0])):
                    return Num(i, INT)
            I.raise_py("ValueError", "not in list")
        if name == "insert":
            i = int(I.num(a[0]).const)
            it = list(o.items)
            it.insert(i, a[1])
            I.put(ref, HList(tuple(it), None, o.kind, o.frozen, o.ghost))
            return None
        if name == "pop":
            i = int(I.num(a[0]).const) if a else -1
            it = list(o.items)
            if not -len(it) <= i < len(it):
                I.raise_py("IndexError", "pop")
            v = it.pop(i)
            I.put(ref, HList(tuple(it), None, o.kind, o.frozen, o.ghost))
            return v
        if name == "reverse":
            I.put(ref, HList(o.items[::-1], None, o.kind, o.frozen, o.ghost))
            return None
        if name == "clear":
            I.put(ref, HList((), None, o.kind, o.frozen, o.ghost))
            return None
        if name == "remove":
            for i, x in enumerate(o.items):
                if I.test(I.eq(x, a[0])):
                    I.put(ref, HList(o.items[:i] + o.items[i + 1:], None, o.kind, o.frozen, o.ghost))
                    return None
            I.raise_py("ValueError", "remove")
    elif name == "pop" and o.items and not a:
        I.put(ref, HList(o.items[:-1], o.pre, o.kind, o.frozen, o.ghost))
        return o.items[-1]
    raise Unsupported(f"list.{name}")


def dict_method(I, ref, o, name, a, kw):
    from .interp import MISSING, GuardedIter, z_not, z_or

    if name == "get":
        return I.dict_get(ref, I.force(a[0]), a[1] if len(a) > 1 else kw.get("default"))
    if name in ("keys", "values", "items"):
        conc = all(z3.is_true(g) for g, _ in o.ent.values())
        if name == "keys":
            return I.new_list(list(o.ent), "list") if conc else GuardedIter([(g, k) for k, (g, _) in o.ent.items()])
        mk = {"values": lambda k, v: v, "items": lambda k, v: (k if not isinstance(k, int) else Num(k, INT), v)}[name]
        if conc:
            return I.new_list([mk(k, v) for k, (_, v) in o.ent.items()])
        return GuardedIter([(g, mk(k, v)) for k, (g, v) in o.ent.items()])
    if name == "update":
        ent = dict(o.ent)
        if a:
            src = I.get(I.force(a[0]))
            if not isinstance(src, HDict):
                raise Unsupported("dict.update")
            for k, (g, v) in src.ent.items():
                if z3.is_true(g):
                    ent[k] = (g, v)
                elif k in ent:
                    ent[k] = (z_or([g, ent[k][0]]), I.merge_values([(g, v), (z_not(g), ent[k][1])]))
                else:
                    ent[k] = (g, v)
        for k, v in kw.items():
            ent[k] = (z3.BoolVal(True), v)
        I.put(ref, HDict(ent, o.frozen, o.tag))
        return None
    if name == "copy":
        return I.alloc(HDict(dict(o.ent)))
    if name == "setdefault":
        v = I.dict_get(ref, a[0], MISSING if len(a) < 2 else a[1])
        I.setitem(ref, a[0], v)
        return v
    if name == "pop":
        v = I.dict_get(ref, a[0], a[1] if len(a) > 1 else MISSING)
        ent = dict(I.get(ref).ent)
        ent.pop(I.dict_key(a[0]), None)
        I.put(ref, HDict(ent, o.frozen, o.tag))
        return v
    raise Unsupported(f"dict.{name}")


STRIP = z3.Function("strip", StrSort, StrSort)


def str_method(I, s, name, a, kw):
    if isinstance(s, texts.SText):
        return texts.method(I, s, name, [I.force(x) for x in a], kw)
    if isinstance(s, str) and name == "isdigit" and not a:
        return s.isdigit()
    if isinstance(s, str) and all(isinstance(x, str) for x in a) and name in ("strip", "replace", "lower", "upper", "lstrip", "rstrip"):
        return getattr(s, name)(*a)
    if isinstance(s, str) and name in ("startswith", "endswith") and isinstance(a[0], str):
        return getattr(s, name)(a[0])
    if name == "format":
        return I.str_("fmt")
    if name == "join" and isinstance(s, str):
        it = I.iterate(a[0])
        if isinstance(it, list) and all(isinstance(x, str) for x in it):
            return s.join(it)
        return I.str_("join")
    if name == "strip" and isinstance(s, SStr) and not a:
        if z3.is_app_of(s.z, z3.Z3_OP_UNINTERPRETED) and s.z.decl().name() == "strip":
            return s
        return SStr(STRIP(s.z), "strip")
    if name in ("encode", "decode"):
        return I.str_("enc")
    raise Unsupported(f"str.{name}")


def call_opaque(I, fn, a, kw):
    if fn.name.startswith("yaml."):
        record_call(I, fn.name, a, kw)
    return Opaque(fn.name + "()")


def record_call(I, name, a, kw):
    """Calls of unmodelled libraries whose arguments a property speaks about."""
    I.st.ghost["library_calls"] = I.st.ghost.get("library_calls", ()) + ((name, tuple(a), dict(kw)),)


# ---------------------------------------------------------------- built-in functions


def construct(I, cls, a, kw):
    if cls is T["float"] or cls is T["np.float64"]:
        if not a:
            return Num(0, FLT)
        v = I.force(a[0])
        if isinstance(v, str):
            try:
                return Num(Fraction(v.strip()), FLT)
            except ValueError:
                I.raise_py("ValueError", "could not convert string to float")
        n = I.num(v)
        if n is not None:
            return Num(n.t, FLT if cls is T["float"] else NPF)
        if isinstance(v, texts.SText) and cls is T["float"]:
            return texts.to_float(I, v)
        if isinstance(v, SStr):
            raise Unsupported("float of an opaque string")
        I.raise_py("TypeError", "float()")
    if cls is T["int"]:
        v = I.force(a[0]) if a else Num(0, INT)
        n = I.num(v)
        if n is not None:
            if n.ty == INT:
                return n
            if n.const is not None:
                return Num(int(n.const), INT)
            return I.int_("trunc")
        if isinstance(v, str):
            try:
                return Num(int(v), INT)
            except ValueError:
                I.raise_py("ValueError", "int()")
        raise Unsupported("int()")
    if cls is T["bool"]:
        return I.truth(a[0]) if a else False
    if cls is T["str"]:
        if not a:
            return ""
        v = I.force(a[0])
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, Ref) and isinstance(I.get(v), HInst):
            return I.str_("str")
        return I.str_("str")
    if cls in (T["tuple"], T["list"], T["set"]):
        if not a:
            return () if cls is T["tuple"] else I.new_list((), cls.name)
        v = I.force(a[0])
        it = I.iterate(v)
        if isinstance(it, SymSeq):
            if cls is T["tuple"] or cls is T["list"]:
                return I.alloc(HList((), it, cls.name))
            raise Unsupported("set of a symbolic sequence")
        if not isinstance(it, list) and I.guarded and cls is not T["set"]:
            return guarded.make(I, it.items, cls.name)
        if not isinstance(it, list):
            raise Unsupported("list of a guarded mapping")
        return tuple(it) if cls is T["tuple"] else I.new_list(it, cls.name)
    if cls is T["dict"]:
        r = I.alloc(HDict({}))
        if a:
            v = I.force(a[0])
            if isinstance(v, Ref) and isinstance(I.get(v), HDict):
                dict_method(I, r, I.get(r), "update", [v], {})
            else:
                it = I.iterate(v)
                if not isinstance(it, list):
                    raise Unsupported("dict()")
                for p in it:
                    k, x = I.iterate(p)
                    I.setitem(r, k, x)
        if kw:
            dict_method(I, r, I.get(r), "update", [], kw)
        return r
    if cls is T["type"]:
        return b_type(I, a, kw)
    if cls is T["object"]:
        return I.alloc(HInst(cls, {}))
    raise Unsupported(f"{cls.name}()")


def b_type(I, a, kw):
    v = I.force(a[0])
    v2, t = I.resolve_type(v)
    return t


def b_isinstance(I, a, kw):
    v = I.force(a[0])
    t = I.force(a[1])
    ts = list(t) if isinstance(t, tuple) else [t]
    if isinstance(v, Opaque) and any(isinstance(x, ClassVal) and x is not OBJECT for x in ts):
        raise Unsupported("isinstance of an opaque value")
    v2, ty = I.resolve_type(v)
    if isinstance(v, Ref) and isinstance(I.get(v), HInst) and I.get(v).cls is SYMARR:
        ty = T["np.ndarray"]
    return any(isinstance(x, ClassVal) and ty.issub(x) for x in ts)


def b_len(I, a, kw):
    return I.seq_len(I.force(a[0]))


def b_abs(I, a, kw):
    v = I.force(a[0])
    if isinstance(v, Ref) and isinstance(I.get(v), HArr):
        def f(d):
            return Num(I.abs_poly(d.t), d.ty) if isinstance(d, Num) else tuple(f(x) for x in d)
        return I.new_arr(f(I.get(v).data))
    n = I.num(v)
    if n is None:
        I.raise_py("TypeError", "abs()")
    return Num(I.abs_poly(n.t), n.ty)


def pick(I, vals, op):
    """min / max of Nums, Python's left-biased choice."""
    if I.merge and len(vals) > 2 and any(v.const is None for v in vals):
        m = I.real("ext", frozenset().union(*[v.ty for v in vals]))
        for v in vals:
            I.assume(zbool(I.cmp_num(v, m, "<=" if op == ">" else ">=")))
        I.assume(z3.Or(*[zbool(I.cmp_num(v, m, "==")) for v in vals]))
        return m
    best = vals[0]
    for v in vals[1:]:
        c = I.cmp_num(v, best, op)
        if isinstance(c, z3.BoolRef) and I.merge:
            from .interp import z_not

            best = I.merge_values([(c, v), (z_not(c), best)])
        elif I.branch(c):
            best = v
    return best


def b_minmax(op):
    def f(I, a, kw):
        if "key" in kw:
            raise Unsupported("min/max key")
        if len(a) == 1:
            it = I.iterate(a[0])
            if isinstance(it, SymSeq):
                if "default" in kw and not I.branch(compare(I.norm(it.n), ">", I.st.positive)):
                    return kw["default"]
                return sym_extremum(I, it, "max" if op == ">" else "min", None)
            if not isinstance(it, list) and I.guarded:
                return guarded.extremum(I, it.items, op, kw.get("default"), "default" in kw)
            if not isinstance(it, list):
                raise Unsupported("min/max of a guarded sequence")
        else:
            it = a
        if not it:
            if "default" in kw:
                return kw["default"]
            I.raise_py("ValueError", "empty sequence")
        ns = [I.num(I.force(x)) for x in it]
        if any(n is None for n in ns):
            I.raise_py("TypeError", "min/max")
        return pick(I, ns, op)
    return f


def b_range(I, a, kw):
    ns = [I.num(I.force(x)) for x in a]
    lo = Num(0, INT) if len(ns) == 1 else ns[0]
    hi = ns[0] if len(ns) == 1 else ns[1]
    step = ns[2] if len(ns) > 2 else Num(1, INT)
    if all(n.const is not None for n in (lo, hi, step)):
        return I.new_list([Num(i, INT) for i in range(int(lo.const), int(hi.const), int(step.const))])
    if step.const != 1:
        raise Unsupported("range step")
    n = I.norm(hi.t - lo.t)
    if not I.branch(compare(n, ">=", I.st.positive)):
        return I.new_list(())
    if n.is_const():
        return I.new_list([Num(I.norm(lo.t + Poly.const(i)), INT) for i in range(int(n.const_value()))])
    return SymSeq(n, lambda J, k: Num(J.norm(lo.t + k), INT), RangeTag(lo.t, hi.t))


def b_enumerate(I, a, kw):
    start = I.num(a[1] if len(a) > 1 else kw.get("start", Num(0, INT)))
    it = I.iterate(a[0])
    if isinstance(it, SymSeq):
        return SymSeq(it.n, lambda J, k: (Num(J.norm(k + start.t), INT), it.get(J, k)), EnumTag(it.tag))
    if not isinstance(it, list):
        raise Unsupported("enumerate")
    return I.new_list([(Num(I.norm(start.t + Poly.const(i)), INT), x) for i, x in enumerate(it)])


def b_zip(I, a, kw):
    its = [I.iterate(x) for x in a]
    if all(isinstance(x, list) for x in its):
        return I.new_list([tuple(t) for t in zip(*its)])
    if any(not isinstance(x, (list, SymSeq)) for x in its):
        raise Unsupported("zip")
    seqs = [x if isinstance(x, SymSeq) else None for x in its]
    n = None
    for x in its:
        m = x.n if isinstance(x, SymSeq) else Poly.const(len(x))
        if n is None:
            n = m
        elif I.norm(m - n).is_zero():
            pass
        elif I.branch(compare(I.norm(m - n), "<", I.st.positive)):
            n = m
    if n.is_const():
        return I.new_list([tuple(I.getitem(I.new_list(x) if isinstance(x, list) else x, Num(i, INT)) for x in its) for i in range(int(n.const_value()))])
    if any(s is None for s in seqs):
        raise Unsupported("zip of concrete and symbolic")
    return SymSeq(n, lambda J, k: tuple(s.get(J, k) for s in seqs), ZipTag(seqs))


def b_all(I, a, kw):
    it = I.iterate(a[0])
    if not isinstance(it, (list, SymSeq)) and I.guarded:
        return z3.simplify(z3.And(*[z3.Implies(zbool(g), zbool(I.truth(guarded.under(I, zbool(g), x)))) for g, x in it.items])) if it.items else True
    if not isinstance(it, list):
        raise Unsupported("all() of a symbolic sequence")
    return I.all_([I.truth(x) for x in it])


def b_any(I, a, kw):
    from .interp import z_or, zb

    it = I.iterate(a[0])
    if not isinstance(it, (list, SymSeq)) and I.guarded:
        return z3.simplify(z3.Or(*[z3.And(zbool(g), zbool(I.truth(guarded.under(I, zbool(g), x)))) for g, x in it.items])) if it.items else False
    if not isinstance(it, list):
        raise Unsupported("any() of a symbolic sequence")
    ts = [I.truth(x) for x in it]
    if all(isinstance(t, bool) for t in ts):
        return any(ts)
    return z3.simplify(z_or([zb(t) for t in ts]))


def b_sum(I, a, kw):
    it = I.iterate(a[0])
    if not isinstance(it, list):
        h = I.st.ghost.get("sum_hook")
        if h is not None and isinstance(it, SymSeq):
            return h(I, it)
        raise Unsupported("sum of a symbolic sequence")
    r = a[1] if len(a) > 1 else kw.get("start", Num(0, INT))
    for x in it:
        r = I.binop("+", r, x)
    return r


def b_round(I, a, kw):
    v = I.num(I.force(a[0]))
    if v is None:
        I.raise_py("TypeError", "round()")
    nd = a[1] if len(a) > 1 else kw.get("ndigits")
    nd = None if nd is None else I.num(I.force(nd))
    if v.const is not None and (nd is None or nd.const is not None):
        return Num(round(v.const, int(nd.const)) if nd is not None else round(v.const), v.ty if nd is not None else INT)
    if nd is not None and nd.const is not None:
        d = int(nd.const)
        f = z3.Function(f"round{d}", z3.RealSort(), z3.RealSort())
        r = f(v.zr())
        q = z3.RealVal(Fraction(1, 2 * 10 ** d))
        I.assume(r - v.zr() <= q)
        I.assume(v.zr() - r <= q)
        return Num(Poly.atom(r), v.ty)
    if nd is None:
        r = I.int_("round")
        I.assume(z3.ToReal(r.z()) - v.zr() <= z3.RealVal("1/2"))
        I.assume(v.zr() - z3.ToReal(r.z()) <= z3.RealVal("1/2"))
        return r
    raise Unsupported("round()")


def b_print(I, a, kw):
    return None


def b_open(I, a, kw):
    path = a[0] if a else kw.get("file")
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    h = I.st.ghost.get("open_hook")
    if h is not None:
        r = h(I, path, mode)
        if r is not None:
            return r
    return I.alloc(HFile(path, mode))


def file_lines(I, o):
    """The lines of a file that is read."""
    f = I.st.ghost.get("file_lines")
    if f is None or not I.same(f[0], o.path) or I.force(o.mode) != "r":
        raise Unsupported("iteration over a file")
    return f[1]


def b_reversed(I, a, kw):
    it = I.iterate(a[0])
    if isinstance(it, list):
        return I.new_list(it[::-1])
    if isinstance(it, SymSeq):
        if hasattr(it.tag, "reversed"):
            return it.tag.reversed(I, it.n)
        return SymSeq(it.n, lambda J, k: it.get(J, J.norm(it.n - Poly.const(1) - k)), None)
    raise Unsupported("reversed")


def b_sorted(I, a, kw):
    it = I.iterate(a[0])
    if isinstance(it, list) and all(isinstance(x, str) for x in it) and not kw:
        return I.new_list(sorted(it))
    raise Unsupported("sorted")


def b_hasattr(I, a, kw):
    from .values import PyRaise

    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


def b_getattr(I, a, kw):
    from .values import PyRaise

    if len(a) < 3:
        return I.getattr(a[0], a[1])
    try:
        return I.getattr(a[0], a[1])
    except PyRaise:
        return a[2]


def b_setattr(I, a, kw):
    I.setattr(a[0], a[1], a[2])


def b_map(I, a, kw):
    it = I.iterate(a[1])
    if not isinstance(it, list) or len(a) != 2:
        raise Unsupported("map")
    return I.new_list([I.call(a[0], [x], {}) for x in it])


def b_filter(I, a, kw):
    it = I.iterate(a[1])
    if not isinstance(it, (list, SymSeq)) and I.guarded:
        return guarded.select(I, it.items, lambda x: I.truth(I.call(a[0], [x], {}) if a[0] is not None else x))
    if not isinstance(it, list):
        raise Unsupported("filter")
    return I.new_list([x for x in it if (I.test(I.call(a[0], [x], {})) if a[0] is not None else I.test(x))])


def b_next(I, a, kw):
    it = I.iterate(a[0])
    if isinstance(it, list):
        if it:
            return it[0]
        if len(a) > 1:
            return a[1]
        I.raise_py("StopIteration", "")
    raise Unsupported("next of a symbolic sequence")


def b_iter(I, a, kw):
    return a[0]


def b_callable(I, a, kw):
    return isinstance(a[0], (FuncVal, BoundMethod, Builtin, ClassVal, BMeth))


def b_slice(I, a, kw):
    from .interp import Slice

    a = list(a) + [None] * 3
    return Slice(None, a[0], None) if len(a) == 4 else Slice(a[0], a[1], a[2])


for _n, _f in {
    "type": b_type, "isinstance": b_isinstance, "len": b_len, "abs": b_abs, "min": b_minmax("<"), "max": b_minmax(">"),
    "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "all": b_all, "any": b_any, "sum": b_sum, "round": b_round,
    "print": b_print, "open": b_open, "reversed": b_reversed, "sorted": b_sorted, "hasattr": b_hasattr,
    "getattr": b_getattr, "setattr": b_setattr, "map": b_map, "filter": b_filter, "next": b_next, "iter": b_iter, "callable": b_callable,
    "slice": b_slice,
    "repr": lambda I, a, k: I.str_("repr"), "id": lambda I, a, k: I.int_("id"),
    "issubclass": lambda I, a, k: a[0].issub(a[1]),
    "pow": lambda I, a, k: I.binop("**", a[0], a[1]),
}.items():
    BUILTINS[_n] = Builtin(_n, _f)
for _n in ("int", "float", "bool", "str", "tuple", "list", "dict", "set", "object", "frozenset"):
    BUILTINS[_n] = T[_n]
BUILTINS["type"] = T["type"]
BUILTINS["NotImplemented"] = Opaque("NotImplemented")
BUILTINS["__name__"] = "module"
for _n in ("property", "classmethod", "staticmethod"):
    BUILTINS[_n] = Opaque(_n)


# ---------------------------------------------------------------- numpy / math


def np_sqrt(I, a, kw):
    v = I.force(a[0])
    n = I.num(v)
    if n is None:
        d = to_data(I, v)
        def f(x):
            return Num(I.sqrt(x.t), NPF) if isinstance(x, Num) else tuple(f(y) for y in x)
        return I.new_arr(f(d))
    return Num(I.sqrt(n.t), NPF)


def math_sqrt(I, a, kw):
    n = I.num(I.force(a[0]))
    if n is None:
        I.raise_py("TypeError", "sqrt")
    return Num(I.sqrt(n.t), FLT)


def _const_fn(name, fn, ty):
    def f(I, a, kw):
        n = I.num(I.force(a[0]))
        if n is None or n.const is None:
            if n is not None:
                g = z3.Function(name, z3.RealSort(), z3.RealSort())
                r = g(n.zr())
                if name in ("sin", "cos"):
                    I.assume(r <= 1)
                    I.assume(r >= -1)
                return Num(Poly.atom(r), ty)
            raise Unsupported(name)
        return Num(Fraction(repr(float(fn(float(n.const))))), ty)
    return f


def np_norm(I, a, kw):
    if len(a) > 1 and a[1] is not None or kw:
        raise Unsupported("norm options")
    d = _flat(to_data(I, a[0]))
    p = Poly.const(0)
    for x in d:
        p = p + I.mul(x.t, x.t)
    return Num(I.sqrt(p, "norm", True), NPF)


def np_dot(I, a, kw):
    x, y = to_data(I, a[0]), to_data(I, a[1])
    if len(_shape(x)) != 1 or len(_shape(y)) != 1 or len(x) != len(y):
        raise Unsupported("dot shapes")
    p = Poly.const(0)
    for u, v in zip(x, y):
        p = p + I.mul(u.t, v.t)
    return Num(I.norm(p), NPF)


def np_isclose(I, a, kw):
    rtol = I.num(kw.get("rtol", a[2] if len(a) > 2 else Num(Fraction("1e-5"), FLT)))
    atol = I.num(kw.get("atol", a[3] if len(a) > 3 else Num(Fraction("1e-8"), FLT)))
    x, y = I.num(I.force(a[0])), I.num(I.force(a[1]))
    if x is None or y is None:
        raise Unsupported("isclose of arrays")
    m = I.merge
    I.merge = 1          # |.| as a term, no fork
    try:
        d = Num(I.abs_poly(I.norm(x.t - y.t)), NPF)
        ay = Num(I.abs_poly(I.norm(y.t)), NPF)
    finally:
        I.merge = m
    return I.cmp_num(d, I.binop_num("+", atol, I.binop_num("*", rtol, ay)), "<=")


def np_asarray(I, a, kw):
    dt = kw.get("dtype", a[1] if len(a) > 1 else None)
    if dt is not None and not isinstance(dt, ClassVal) and not isinstance(dt, Opaque):
        raise Unsupported("dtype")
    v = I.force(a[0])
    if isinstance(v, Ref) and isinstance(I.get(v), HArr):
        return v
    r = as_array(I, v, {"dtype": dt})
    if r is not None:
        return r
    if dt is T["int"] or dt is T["bool"]:
        raise Unsupported("array of converted numbers")
    return to_arr(I, v)


OBJARR = ClassVal("ndarray", [T["np.ndarray"]], {}, "numpy", "objarray", False)


def np_array(I, a, kw):
    if kw.get("dtype") is T.get("object"):      # columns of any values, only written to a file
        rows = I.iterate(I.force(a[0]))
        if isinstance(rows, list) and rows and all(isinstance(I.force(r), Ref) and isinstance(I.get(I.force(r)), HList) for r in rows):
            rows = tuple(I.get(I.force(r)) for r in rows)
            t = I.alloc(HInst(OBJARR, {"columns": rows}, True))
            return I.alloc(HInst(OBJARR, {"rows": rows, "T": t}, True))
    r = np_asarray(I, a, kw)
    if isinstance(r, Ref) and isinstance(I.get(r), HArr):
        return I.new_arr(I.get(r).data)
    return r


def np_arith(op):
    return lambda I, a, kw: arr_binop(I, op, a[0], a[1])


def np_reshape(I, a, kw):
    v = I.force(a[0])
    sh = [int(I.num(x).const) for x in (a[1] if isinstance(a[1], tuple) else I.iterate(a[1]) if I.num(a[1]) is None else [a[1]])]
    fl = _flat(to_data(I, v))
    if len(sh) == 2:
        c = sh[1] if sh[1] != -1 else (len(fl) // sh[0] if sh[0] else 0)
        if c == 0 or len(fl) % c:
            I.raise_py("ValueError", "reshape")
        return I.new_arr(tuple(tuple(fl[i:i + c]) for i in range(0, len(fl), c)))
    if len(sh) == 1:
        return I.new_arr(tuple(fl))
    raise Unsupported("reshape")


def np_ext(which):
    op = ">" if which == "max" else "<"

    def f(I, a, kw):
        v = I.force(a[0])
        axis = kw.get("axis", a[1] if len(a) > 1 else None)
        axis = None if axis is None else int(I.num(axis).const)
        s = is_symseq(I, v)
        if s is not None:
            return sym_extremum(I, s, which, axis)
        d = to_data(I, v)
        sh = _shape(d)
        if sh[0] == 0:
            I.raise_py("ValueError", "zero-size array to reduction operation")
        m = I.merge
        I.merge = 1
        try:
            if axis is None or len(sh) == 1:
                return pick(I, _flat(d), op)
            if axis == 0 and len(sh) == 2:
                return I.new_arr(tuple(pick(I, [row[j] for row in d], op) for j in range(sh[1])))
            if axis in (1, -1) and len(sh) == 2:
                return I.new_arr(tuple(pick(I, list(row), op) for row in d))
        finally:
            I.merge = m
        raise Unsupported("reduction axis")
    return f


class Extremum:
    def __init__(self, seq, which, vals, wit):
        self.seq, self.which, self.vals, self.wit = seq, which, vals, wit


def row_of(I, seq, idx):
    e = seq.get(I, idx)
    d = to_data(I, e)
    return (d,) if isinstance(d, Num) else d


def sym_extremum(I, seq, which, axis):
    """amax / amin along axis 0 of a symbolic sequence of numbers or rows."""
    if not I.branch(compare(I.norm(seq.n), ">", I.st.positive)):
        I.raise_py("ValueError", "zero-size array to reduction operation")
    w0 = I.int_("wit")
    I.assume(w0.z() >= 0)
    I.assume(w0.z() < seq.n.to_z3())
    r0 = I.merged(lambda: row_of(I, seq, w0.t))
    scalar = len(r0) == 1 and isinstance(I.merged(lambda: to_data(I, seq.get(I, w0.t))), Num)
    if not scalar and axis != 0:
        raise Unsupported("reduction axis")
    vals, wits = [], []
    for j in range(len(r0)):
        m = I.real(f"{which}{j}", NPF)
        if j == 0:
            w, r = w0, r0
        else:
            w = I.int_("wit")
            I.assume(w.z() >= 0)
            I.assume(w.z() < seq.n.to_z3())
            r = I.merged(lambda w=w: row_of(I, seq, w.t))
        I.assume(zbool(I.cmp_num(m, r[j], "==")))
        vals.append(m)
        wits.append(w)
    I.st.ghost[("ext", I.fresh_name("e"))] = Extremum(seq, which, vals, wits)
    return vals[0] if scalar else I.new_arr(tuple(vals))


def zbool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def instantiate_extremum(I, ext, idx):
    """For an index in range: element <= max (>= min)."""
    r = row_of(I, ext.seq, idx)
    inr = z3.And(idx.to_z3() >= 0, idx.to_z3() < ext.seq.n.to_z3())
    for j, m in enumerate(ext.vals):
        I.assume(z3.Implies(inr, zbool(I.cmp_num(r[j], m, "<=" if ext.which == "max" else ">="))))


class RClass:
    pass


def np_r(I, key):
    parts = key if isinstance(key, tuple) else (key,)
    out = []
    dim = None
    for p in parts:
        d = to_data(I, p)
        if isinstance(d, Num):
            d = (d,)
        out += list(d)
    return I.new_arr(tuple(out))


def _np_r_obj(I):
    cls = ClassVal("RClass", [OBJECT], {"__getitem__": Builtin("r_", lambda I, a, k: np_r(I, a[1]))}, "numpy", "RClass", False)
    return I.alloc(HInst(cls, {}))


def np_abs(I, a, kw):
    return b_abs(I, [to_arr(I, a[0])] if I.num(I.force(a[0])) is None else a, kw)


def np_clip(I, a, kw):
    return pick(I, [pick(I, [I.num(a[0]), I.num(a[1])], ">"), I.num(a[2])], "<")


def _trusted_noop(name):
    return Builtin(name, lambda I, a, k: None)


def std_module(I, name):
    if name == "re":
        return texts.module(I)
    if name == "numpy":
        B = {
            "sqrt": np_sqrt, "isclose": np_isclose, "asarray": np_asarray, "array": np_array, "dot": np_dot,
            "subtract": np_arith("-"), "add": np_arith("+"), "multiply": np_arith("*"), "divide": np_arith("/"),
            "reshape": np_reshape, "amax": np_ext("max"), "amin": np_ext("min"), "max": np_ext("max"), "min": np_ext("min"),
            "abs": np_abs, "absolute": np_abs, "fabs": np_abs, "sin": _const_fn("sin", math.sin, NPF), "cos": _const_fn("cos", math.cos, NPF),
            "tan": _const_fn("tan", math.tan, NPF),
            "minimum": lambda I, a, k: pick(I, [I.num(I.force(x)) for x in a], "<"),
            "maximum": lambda I, a, k: pick(I, [I.num(I.force(x)) for x in a], ">"),
            "zeros": lambda I, a, k: I.new_arr(tuple(Num(0, NPF) for _ in range(int(I.num(a[0]).const)))),
            "square": lambda I, a, k: I.binop("*", a[0], a[0]),
            "hypot": lambda I, a, k: Num(I.sqrt(I.mul(I.num(a[0]).t, I.num(a[0]).t) + I.mul(I.num(a[1]).t, I.num(a[1]).t)), NPF),
            "sum": lambda I, a, k: b_sum(I, [I.new_list(_flat(to_data(I, a[0])))], {}),
            "clip": np_clip, "power": lambda I, a, k: I.binop("**", a[0], a[1]),
            "vstack": lambda I, a, k: I.new_arr(tuple(to_data(I, x) for x in I.iterate(a[0]))),
            "degrees": _const_fn("deg", math.degrees, NPF), "radians": _const_fn("rad", math.radians, NPF),
            "deg2rad": _const_fn("rad", math.radians, NPF),
            "where": np_where,
            "savetxt": lambda I, a, k: record_call(I, "np.savetxt", a, k),
        }
        attrs = {k: Builtin("np." + k, v) for k, v in B.items()}
        attrs["linalg"] = ModuleVal("numpy.linalg", {"norm": Builtin("np.linalg.norm", np_norm)})
        attrs["pi"] = Num(Fraction(repr(math.pi)), FLT)
        attrs["ndarray"] = T["np.ndarray"]
        attrs["float64"] = T["np.float64"]
        attrs["r_"] = _np_r_obj(I)
        attrs["inf"] = Opaque("inf")
        attrs["nan"] = Opaque("nan")
        attrs["newaxis"] = None
        return ModuleVal("numpy", attrs)
    if name == "math":
        attrs = {
            "sqrt": Builtin("math.sqrt", math_sqrt), "pi": Num(Fraction(repr(math.pi)), FLT),
            "sin": Builtin("math.sin", _const_fn("sin", math.sin, FLT)),
            "cos": Builtin("math.cos", _const_fn("cos", math.cos, FLT)),
            "tan": Builtin("math.tan", _const_fn("tan", math.tan, FLT)),
            "radians": Builtin("math.radians", _const_fn("rad", math.radians, FLT)),
            "fabs": Builtin("math.fabs", b_abs),
            "hypot": Builtin("math.hypot", lambda I, a, k: Num(Poly.const(0), FLT) if not a else np_norm(I, [I.new_list(a)], {})),
            "isclose": Opaque("math.isclose"), "inf": Opaque("inf"),
        }
        return ModuleVal("math", attrs)
    if name == "typing":
        return ModuleVal("typing", {}, None, True)
    if name == "locale":
        return ModuleVal("locale", {}, None, True)
    if name == "copy":
        def cp(I, a, k):
            o = I.get(a[0]) if isinstance(a[0], Ref) else None
            return I.alloc(o) if o is not None else a[0]
        return ModuleVal("copy", {"copy": Builtin("copy.copy", cp)})
    if name in ("sys",):
        m = ModuleVal("sys", {"executable": "python"}, None, True)
        return m
    return ModuleVal(name, {}, None, True)
