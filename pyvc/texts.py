"""Texts whose characters are unknown: parts of one text, identified by their ends, with searches in it as given facts."""

import re

import z3

from .values import Builtin, ClassVal, HInst, INT, Num, Phi, SStr, StrSort, Unsupported

try:
    from re import _parser as sre_parse
    from re import _constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c


def iz(n):
    """Integer term of a number."""
    if n.t.is_const():
        return z3.IntVal(int(n.t.const_value()))
    e = n.t.to_z3()
    return e if e.is_int() else z3.ToInt(e)


class SText(SStr):
    """string[a:b] of the text described by src, less the characters named in ops."""

    __slots__ = ("src", "a", "b", "ops")

    def __init__(self, src, a, b, ops=()):
        f = z3.Function(f"part:{src.name}:{'|'.join(ops)}", z3.IntSort(), z3.IntSort(), StrSort)
        super().__init__(f(iz(a), iz(b)), "text")
        self.src, self.a, self.b, self.ops = src, a, b, ops

    def with_op(self, op):
        return self if op in self.ops else SText(self.src, self.a, self.b, tuple(sorted(self.ops + (op,))))


def zbool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


class Source:
    """Description of a text: its length and where the patterns of interest are found first."""

    def __init__(self, I, name):
        self.name = name
        self.n = I.int_("length")
        I.assume(self.n.z() >= 0)
        self.isnum = z3.Function("isnum:" + name, z3.IntSort(), z3.IntSort(), z3.BoolSort())
        self.value = z3.Function("value:" + name, z3.IntSort(), z3.IntSort(), z3.RealSort())

    def text(self):
        return SText(self, Num(0, INT), self.n)

    def find(self, I, word, lookahead):
        """(present, start) of the first match of a word (not followed by a digit)."""
        raise Unsupported(f"search for {word!r}")


def length(I, s):
    if s.ops:
        raise Unsupported("length of an edited text")
    return I.binop_num("-", s.b, s.a)


def slice_(I, s, a, b):
    if s.ops:
        raise Unsupported("part of an edited text")
    n = length(I, s)
    if (a is None or a.const is None or a.const >= 0) and (b is None or b.const is None or b.const >= 0):
        x, y = Num(0, INT) if a is None else a, n if b is None else b
        if I.implied(z3.And(*[zbool(c) for c in (I.cmp_num(x, Num(0, INT), ">="), I.cmp_num(y, x, ">="), I.cmp_num(y, n, "<="))])):
            return SText(s.src, I.binop_num("+", s.a, x), I.binop_num("+", s.a, y))

    def bound(x, default):
        if x is None:
            return default
        if x.const is not None and x.const < 0:
            raise Unsupported("negative index into a text")
        if not I.branch(I.cmp_num(x, Num(0, INT), ">=")):
            raise Unsupported("negative index into a text")
        if x.const == 0:
            return s.a
        if not I.branch(I.cmp_num(x, n, "<=")):
            return s.b
        return I.binop_num("+", s.a, x)

    lo, hi = bound(a, s.a), bound(b, s.b)
    if not I.branch(I.cmp_num(hi, lo, ">=")):
        return ""
    return SText(s.src, lo, hi)


def to_float(I, s):
    """float(text): white space around it never matters."""
    if I.branch(s.src.isnum(iz(s.a), iz(s.b))):
        from .terms import Poly

        return Num(Poly.atom(s.src.value(iz(s.a), iz(s.b))), frozenset({"float"}))
    I.raise_py("ValueError", "could not convert string to float")


SPACE = (" ", "\n", "\t", "\r")


def method(I, s, name, a, kw):
    if kw:
        raise Unsupported("method of a text")
    if name == "replace" and len(a) == 2 and a[0] in SPACE and a[1] == "":
        return s.with_op("no " + repr(a[0]))
    if name in ("strip", "lstrip", "rstrip") and (not a or isinstance(a[0], str) and all(c in SPACE for c in a[0])):
        return s.with_op(name + " " + (repr(a[0]) if a else "white space"))
    if name in ("find", "index") and len(a) == 1 and isinstance(a[0], str):
        has, p = found(I, s, a[0], False)
        if I.branch(has):
            return p
        if name == "index":
            I.raise_py("ValueError", "substring not found")
        return Num(-1, INT)
    raise Unsupported(f"text.{name}")


def contains(I, s, x):
    if not isinstance(x, str):
        raise Unsupported("search in a text")
    return found(I, s, x, False)[0]


def found(I, s, word, lookahead):
    if s.ops or s.a.const != 0 or not s.b.t == s.src.n.t:
        raise Unsupported("search in a part of a text")
    return s.src.find(I, word, lookahead)


# ---------------------------------------------------------------- regular expressions


def pattern(p):
    """(literal word, not followed by a digit) of a pattern."""
    word, la = "", False
    for op, arg in sre_parse.parse(p):
        if la:
            raise Unsupported("regular expression")
        if op is sre_c.LITERAL:
            word += chr(arg)
        elif op is sre_c.ASSERT_NOT and arg[0] == 1 and list(arg[1]) in ([(sre_c.IN, [(sre_c.CATEGORY, sre_c.CATEGORY_DIGIT)])], [(sre_c.IN, [(sre_c.RANGE, (48, 57))])]):
            la = True
        else:
            raise Unsupported("regular expression")
    if not word:
        raise Unsupported("regular expression")
    return word, la


def _field(n):
    return Builtin("match." + n, lambda I, a, k: I.get(a[0]).fields["_" + n])


def _group(I, a, k):
    if len(a) > 1 and I.num(a[1]).const != 0:
        raise Unsupported("group of a match")
    return I.get(a[0]).fields["_group"]


MATCH = ClassVal("re.Match", [], {
    "start": _field("start"), "end": _field("end"), "group": Builtin("match.group", _group),
    "span": Builtin("match.span", lambda I, a, k: (I.get(a[0]).fields["_start"], I.get(a[0]).fields["_end"])),
}, "re", "Match")


def search(I, p, s):
    s = I.force(s)
    if not isinstance(s, SStr) and not isinstance(s, str):
        I.raise_py("TypeError", "expected string")
    if not isinstance(p, str) or not isinstance(s, SText):
        raise Unsupported("regular expression search")
    word, la = pattern(p)
    has, at = found(I, s, word, la)
    m = I.alloc(HInst(MATCH, {"_start": at, "_end": I.binop_num("+", at, Num(len(word), INT)), "_group": word}, True))
    if z3.is_true(has):
        return m
    if z3.is_false(has):
        return None
    return Phi([(has, m), (z3.Not(has), None)])


PATTERN = ClassVal("re.Pattern", [], {"search": Builtin("pattern.search", lambda I, a, k: search(I, I.get(a[0]).fields["pattern"], k["string"] if k else a[1]))}, "re", "Pattern")


def module(I):
    from .values import ModuleVal

    def compile_(I, a, k):
        if k or len(a) != 1 or not isinstance(a[0], str):
            raise Unsupported("regular expression")
        return I.alloc(HInst(PATTERN, {"pattern": a[0]}, True))

    def search_(I, a, k):
        v = dict(zip(("pattern", "string"), a), **k)
        if set(v) != {"pattern", "string"}:
            raise Unsupported("regular expression flags")
        p = I.force(v["pattern"])
        from .values import Ref

        if isinstance(p, Ref):
            p = I.get(p).fields.get("pattern")
        return search(I, p, v["string"])

    def escape(I, a, k):
        if not isinstance(a[0], str):
            raise Unsupported("re.escape")
        return re.escape(a[0])

    return ModuleVal("re", {"search": Builtin("re.search", search_), "compile": Builtin("re.compile", compile_), "escape": Builtin("re.escape", escape)})
