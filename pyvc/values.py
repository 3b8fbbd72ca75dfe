"""Value and heap-object kinds of the symbolic interpreter."""

from dataclasses import dataclass, field
from fractions import Fraction
from typing import Any, Callable, Optional

import z3

from .terms import Poly

INT = frozenset({"int"})
FLT = frozenset({"float"})
NPF = frozenset({"np"})
ANYNUM = frozenset({"int", "float", "np"})

StrSort = z3.DeclareSort("PyStr")


class Num:
    """A Python number: exact term + set of possible concrete types (int/float/np.float64)."""

    __slots__ = ("t", "ty")

    def __init__(self, t, ty=FLT):
        if isinstance(t, (int, Fraction)):
            t = Poly.const(t)
        elif isinstance(t, z3.ExprRef):
            from .terms import from_z3

            t = from_z3(t)
        self.t = t
        self.ty = ty

    def __repr__(self):
        return f"Num({self.t})"

    def z(self):
        return self.t.to_z3()

    def zr(self):
        e = self.t.to_z3()
        return z3.ToReal(e) if e.is_int() else e

    @property
    def const(self):
        return self.t.const_value() if self.t.is_const() else None


class SStr:
    """Opaque string, compared by an uninterpreted-sort constant."""

    __slots__ = ("z", "note")

    def __init__(self, z, note=""):
        self.z = z
        self.note = note


@dataclass(frozen=True)
class Ref:
    id: int


@dataclass
class FuncVal:
    node: Any
    module: str
    qualname: str
    closure: Optional[int]
    defaults: list
    kwdefaults: dict
    cls: Any = None
    locals_: frozenset = frozenset()
    kind: str = "function"   # function | property | classmethod | staticmethod
    fset: Any = None

    def __repr__(self):
        return f"<func {self.qualname}>"


class ClassVal:
    def __init__(self, name, bases, members, module=None, qualname=None, builtin=False):
        self.name = name
        self.bases = bases
        self.members = members
        self.module = module
        self.qualname = qualname or name
        self.builtin = builtin

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.qualname}>"


@dataclass
class BoundMethod:
    func: Any
    self_: Any


@dataclass
class Builtin:
    name: str
    fn: Callable


@dataclass
class BMeth:
    obj: Any
    name: str


class ModuleVal:
    def __init__(self, name, attrs=None, frame=None, opaque=False):
        self.name = name
        self.attrs = attrs or {}
        self.frame = frame
        self.opaque = opaque


class Opaque:
    """A value of an unmodelled library (only storable / passable)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<opaque {self.name}>"


class Havoc:
    """Loop-modified variable whose value is unusable before re-assignment."""

    def __init__(self, name, resolve=None):
        self.name = name
        self.resolve = resolve


class Phi:
    """Guarded union of values of different kinds."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts  # list[(z3 Bool, value)]

    def __repr__(self):
        return f"Phi({self.alts})"


# ---------------------------------------------------------------- heap objects (immutable)


@dataclass(frozen=True)
class HInst:
    cls: Any
    fields: dict
    frozen: bool = False
    tag: Any = None


@dataclass(frozen=True)
class SymSeq:
    """Symbolic sequence: length term and element function (idx z3 Int -> value)."""

    n: Any                       # Poly (integer)
    get: Callable = None         # fn(interp, idx Poly) -> value
    tag: Any = None


@dataclass(frozen=True)
class HList:
    items: tuple                 # concrete tail
    pre: Any = None              # SymSeq prefix or None
    kind: str = "list"
    frozen: bool = False
    ghost: Any = None


@dataclass(frozen=True)
class HDict:
    ent: dict                    # key -> (guard, value)
    frozen: bool = False
    tag: Any = None


@dataclass(frozen=True)
class HArr:
    data: tuple                  # nested tuples of Num
    frozen: bool = False


@dataclass(frozen=True)
class HFrame:
    vars: dict
    parent: Optional[int]
    qualname: str = ""


@dataclass(frozen=True)
class HFile:
    path: Any
    mode: Any
    writes: Any = ()


class Unsupported(Exception):
    """The construct is outside the verified subset (never a property violation)."""


class PathDead(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, node=None):
        self.exc = exc     # Ref to HInst of exception class
        self.node = node
