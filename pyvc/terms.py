"""Canonical arithmetic terms for the verifier.

A term is a Laurent polynomial with rational coefficients over *atoms*.  An atom is
any z3 arithmetic expression that is not itself +,-,* or a constant (a variable, an
if-then-else, an uninterpreted application, a square root, an inverse).  Keeping
arithmetic in this canonical form discharges ring identities by construction and
leaves z3 / cvc5 only the residual (in)equalities.  Atoms carrying a *square rule*
``a**2 -> P`` are kept at degree <= 1.
"""

from fractions import Fraction

import z3

_atoms = {}      # sexpr-ish key -> id
_atom_expr = []  # id -> z3 expr
_atom_int = []   # id -> bool


def atom_id(e):
    k = e.get_id()
    i = _atoms.get(k)
    if i is None:
        i = len(_atom_expr)
        _atoms[k] = i
        _atom_expr.append(e)      # keeps e alive, so get_id stays unique
        _atom_int.append(e.is_int())
    return i


def atom_expr(i):
    return _atom_expr[i]


class Poly:
    __slots__ = ("m", "_h", "_z")

    def __init__(self, m):
        self.m = m
        self._h = None
        self._z = None

    # ---- constructors
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def atom(e):
        return Poly({((atom_id(e), 1),): Fraction(1)})

    # ---- queries
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const_value(self):
        return self.m.get((), Fraction(0))

    def is_zero(self):
        return not self.m

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def atoms(self):
        return {a for mon in self.m for a, _ in mon}

    def is_int(self):
        return all(c.denominator == 1 for c in self.m.values()) and all(
            _atom_int[a] and e >= 0 for mon in self.m for a, e in mon
        )

    def single_monomial(self):
        if len(self.m) == 1:
            return next(iter(self.m.items()))
        return None

    # ---- arithmetic
    def __add__(self, o):
        r = dict(self.m)
        for k, c in o.m.items():
            v = r.get(k, 0) + c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        return Poly(r)

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = Fraction(c)
        return Poly({k: v * c for k, v in self.m.items()}) if c else ZERO

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        r = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mon_mul(k1, k2)
                v = r.get(k, 0) + c1 * c2
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r)

    def mon_pow_neg(self):
        """1/self for a single monomial."""
        mon, c = self.single_monomial()
        return Poly({tuple((a, -e) for a, e in mon): 1 / c})

    def to_z3(self):
        """z3 expression (uses 1/x for negative exponents)."""
        if self._z is None:
            self._z = self._to_z3()
        return self._z

    def _to_z3(self):
        if not self.m:
            return z3.RealVal(0)
        isint = self.is_int()
        parts = []
        for mon, c in sorted(self.m.items()):
            fs = []
            for a, e in mon:
                x = _atom_expr[a]
                if _atom_int[a] and not isint:
                    x = z3.ToReal(x)
                if e < 0:
                    x = z3.RealVal(1) / x
                fs += [x] * abs(e)
            if not fs or c != 1:
                cv = z3.IntVal(c.numerator) if isint else z3.RealVal(c)
                fs = [cv] + fs
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            parts.append(t)
        t = parts[0]
        for p in parts[1:]:
            t = t + p
        return t

    def __repr__(self):
        if not self.m:
            return "0"
        out = []
        for mon, c in sorted(self.m.items()):
            s = "*".join(f"{_atom_expr[a]}" + (f"^{e}" if e != 1 else "") for a, e in mon)
            out.append(f"{c}*{s}" if s else str(c))
        return " + ".join(out)


ZERO = Poly({})


def mon_mul(k1, k2):
    if not k1:
        return k2
    if not k2:
        return k1
    d = dict(k1)
    for a, e in k2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def reduce_poly(p, rules):
    """Rewrite a**2 -> rules[a] until no atom with a rule has exponent >= 2."""
    if not rules:
        return p
    for _ in range(64):
        hit = None
        for mon in p.m:
            for a, e in mon:
                if e >= 2 and a in rules:
                    hit = (mon, a, e)
                    break
            if hit:
                break
        if not hit:
            return p
        out = ZERO
        acc = {}
        for mon, c in p.m.items():
            d = dict(mon)
            red = None
            for a, e in mon:
                if e >= 2 and a in rules:
                    red = a
                    break
            if red is None:
                acc[mon] = acc.get(mon, 0) + c
            else:
                e = d.pop(red)
                if e - 2:
                    d[red] = e - 2
                out = out + Poly({tuple(sorted(d.items())): c}) * rules[red]
        p = Poly({k: v for k, v in acc.items() if v}) + out
    return p


def from_z3(e):
    """z3 arithmetic expr -> Poly (structural)."""
    if z3.is_int_value(e):
        return Poly.const(e.as_long())
    if z3.is_rational_value(e):
        return Poly.const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = ZERO
        for c in e.children():
            r = r + from_z3(c)
        return r
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        r = from_z3(ch[0])
        for c in ch[1:]:
            r = r - from_z3(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -from_z3(e.children()[0])
    if k == z3.Z3_OP_MUL:
        r = Poly.const(1)
        for c in e.children():
            r = r * from_z3(c)
        return r
    if k == z3.Z3_OP_TO_REAL:
        return from_z3(e.children()[0])
    return Poly.atom(e)


def compare(p, op, positive=frozenset()):
    """z3 Bool for ``p op 0``; negative exponents are multiplied out by positive factors."""
    if p.is_const():
        c = p.const_value()
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    mins = {}
    for mon in p.m:
        for a, e in mon:
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    for a, e in mins.items():
        k = -e
        if a not in positive and k % 2 and op not in ("==", "!="):
            k += 1
        p = p * Poly({((a, k),): Fraction(1)})
    # divide out common monomial factor of known-positive atoms
    common = None
    for mon in p.m:
        d = dict(mon)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
    if common:
        for a, e in common.items():
            if a in positive and e > 0:
                p = p * Poly({((a, -e),): Fraction(1)})
    # normalise scale
    den = 1
    for c in p.m.values():
        den = den * c.denominator // _gcd(den, c.denominator)
    if den != 1:
        p = p.scale(den)
    if p.is_const():
        return compare(p, op, positive)
    neg = Poly({k: -c for k, c in p.m.items() if c < 0})
    pos = Poly({k: c for k, c in p.m.items() if c > 0})
    if p.is_int():
        l = pos.to_z3() if pos.m else z3.IntVal(0)
        r = neg.to_z3() if neg.m else z3.IntVal(0)
    else:
        l, r = pos.to_z3(), neg.to_z3()
    if l.is_int() and not r.is_int():
        l = z3.ToReal(l)
    if r.is_int() and not l.is_int():
        r = z3.ToReal(r)
    return {
        "==": lambda: l == r,
        "!=": lambda: l != r,
        "<": lambda: l < r,
        "<=": lambda: l <= r,
        ">": lambda: l > r,
        ">=": lambda: l >= r,
    }[op]()


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def subst(p, pairs, memo=None):
    """Substitute atoms by z3 expressions inside a Poly (also inside compound atoms)."""
    r = ZERO
    for mon, c in p.m.items():
        t = Poly.const(c)
        for a, e in mon:
            x = z3.substitute(_atom_expr[a], *pairs)
            q = from_z3(x) if not x.eq(_atom_expr[a]) else Poly.atom(x)
            if e > 0:
                for _ in range(e):
                    t = t * q
            else:
                if q.single_monomial() is not None:
                    inv = q.mon_pow_neg()
                else:
                    inv = Poly.atom(z3.RealVal(1) / q.to_z3())
                for _ in range(-e):
                    t = t * inv
        r = r + t
    return r
