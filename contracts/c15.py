"""C15: parsing.

Reading a file is verified against the contract of arg_extract.  arg_extract is verified for every text described by
where the words of the table occur in it (Words); a text is made of words, the facts about their occurrences follow
from the spelling of the words (lemmas).
"""

import ast

import z3

from pyvc import guarded
from pyvc.texts import Source, SText
from pyvc.unit import Unit
from pyvc.values import ClassVal, ContinueEx, Havoc, HInst, PathDead, Phi
from .states import *  # noqa: F401,F403
from .states import COMMANDS, FALSE, INT, ONE, TRUE, HDict, HList, FLT, zb, Num, Opaque, Poly, Program, Ref, SStr, Stub, SymSeq, Unsupported, cls, eqn, iz, num, sfun
from pyvc.interp import MISSING


def parsed(I, P, z):
    """What arg_extract finds in line z: commands with arguments, and the comment."""
    ent = {}
    for c in P.has:
        ent[c] = (P.has[c](z), SStr(P.text(z)) if c == ";" else Opaque(("content", c)))
    return ent


def u_read(I):
    P = Program(I)
    path = I.str_("path")
    text = sfun("line")
    I.st.ghost["file_lines"] = (path, SymSeq(P.n.t, lambda J, k: SStr(text(iz(J.norm(k)))), None))
    known = cls(I, "state_generator:known_commands")
    made = {}

    def extract(J, v):
        s = J.force(v["string"])
        J.oblige(TRUE if isinstance(s, SStr) and z3.is_app(s.z) and s.z.decl().eq(text) else FALSE, "whole lines are parsed")
        J.oblige(TRUE if J.same(v["key_dict"], known) else FALSE, "lines are parsed with the table of known commands")
        if not (isinstance(s, SStr) and s.z.decl().eq(text)):
            raise Unsupported("parsing of something else than a line")
        z = s.z.arg(0)
        key = z.get_id()
        if key not in made:
            made[key] = (z, parsed(J, P, z))
        return J.alloc(HDict(dict(made[key][1])))

    s = Stub("state_generator.arg_extract", extract)
    I.contracts[s.target] = s
    r = I.force(I.call(cls(I, "state_generator:read_gcode_to_dict_list"), [], {"filepath": path}))
    I.oblige(eqn(I, I.seq_len(r), P.n), "one entry per line")
    j = I.int_("j")
    I.assume(z3.And(j.z() >= 0, j.z() < P.n.z()))
    d = I.force(I.getitem(r, j))
    ok = isinstance(d, Ref) and isinstance(I.get(d), HDict)
    I.oblige(TRUE if ok else FALSE, "an entry is a dictionary")
    if not ok:
        return
    ent = dict(I.get(d).ent)
    n = ent.pop("line_number", None)
    I.oblige(TRUE if n is not None and z3.is_true(n[0]) else FALSE, "an entry has a line number")
    if n is not None:
        I.oblige(eqn(I, num(I, n[1]), Num(I.norm(j.t + ONE), INT)), "line numbers begin with one")
    want = parsed(I, P, iz(j.t))
    I.oblige(TRUE if set(ent) == set(want) else FALSE, "an entry holds what the line holds")
    for c in set(ent) & set(want):
        I.oblige(ent[c][0] == want[c][0], "an entry holds what its own line holds")
        a, b = ent[c][1], want[c][1]
        I.oblige(TRUE if I.same(a, b) or isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name else FALSE, "an entry holds what its own line holds")


# ---------------------------------------------------------------- arg_extract


class Words(Source):
    """A text made of the words of a table: each at most once outside of the comment, where anything may follow.

    has[w], pos[w]: whether and where the word occurs first; a command's number ends with its last digit.
    """

    def __init__(self, I, name, table):
        super().__init__(I, name)
        self.table = table
        self.words = list(table)
        lemmas(I, self.words)
        self.has = {w: I.bool_("has " + w) for w in self.words}
        self.pos = {w: I.int_("pos " + w) for w in self.words}
        self.end = {w: Num(I.norm(p.t + Poly.const(len(w))), INT) for w, p in self.pos.items()}
        self.c = self.n
        if ";" in table:
            self.c = I.int_("comment")
            I.assume(z3.If(self.has[";"], self.c.z() == self.pos[";"].z(), self.c.z() == self.n.z()))
        for w in self.words:
            I.assume(z3.Implies(self.has[w], z3.And(self.pos[w].z() >= 0, self.end[w].z() <= self.n.z())))
        if ";" in table:
            for w in self.words:
                if w != ";":
                    self.disjoint(I, w, ";")
        I.st.ghost["words"] = self

    def code(self, w):
        """The word stands outside of the comment."""
        return z3.And(self.has[w], self.pos[w].z() < self.c.z()) if w != ";" else self.has[w]

    def disjoint(self, I, v, w):
        """Two words do not overlap (lemmas)."""
        I.assume(z3.Implies(z3.And(self.has[v], self.has[w]), z3.Or(self.end[v].z() <= self.pos[w].z(), self.end[w].z() <= self.pos[v].z())))

    def next(self, I, w):
        """Where the text belonging to a word ends: the next word, the comment or the end."""
        r = I.int_("next " + w)
        others = [v for v in self.words if v not in (w, ";")]
        after = {v: z3.And(self.code(v), self.pos[v].z() >= self.end[w].z()) for v in others}     # the words do not overlap
        I.assume(z3.And([z3.Implies(after[v], r.z() <= self.pos[v].z()) for v in others] + [r.z() <= self.c.z()]))
        I.assume(z3.Or([z3.And(after[v], r.z() == self.pos[v].z()) for v in others] + [r.z() == self.c.z()]))
        return r

    def find(self, I, word, lookahead):
        if word in self.has and lookahead == word[-1].isdigit():
            return self.has[word], self.pos[word]
        if word in self.has:
            # the word may be the beginning of a longer number: some earlier place may match as well
            if lookahead:
                raise Unsupported(f"search for {word!r} not followed by a digit")
            h, p = I.bool_("found " + word), I.int_("at " + word)
            for v in self.words:
                if v.startswith(word):
                    I.assume(z3.Implies(self.has[v], z3.And(h, p.z() <= self.pos[v].z())))
            I.assume(z3.And(p.z() >= 0, z3.Implies(h, p.z() + len(word) <= self.n.z())))
            return h, p
        raise Unsupported(f"search for {word!r}")


def lemmas(I, words):
    """Facts about the words of a table on which the description of a text rests, checked for the words of the code."""
    import re

    bad = None
    single = all(len(w) == 1 and w.isalpha() and w.isupper() for w in words)
    if not single:
        for w in words:
            if w != ";" and not re.fullmatch(r"[GM]\d+", w):
                bad = w
    for v in words:
        for w in words:
            if v != w:
                # they never overlap: where both begin at one place one is the other's number continued
                if w.startswith(v) and not (v[-1].isdigit() and w[len(v)].isdigit()):
                    bad = v
                for d in range(1, len(v)):
                    k = min(len(v) - d, len(w))
                    if v[d:d + k] == w[:k]:
                        bad = v
    if bad is not None or len(set(words)) != len(words):
        raise Unsupported(f"words of the table: {bad}")


class NothingRemoved:
    """`while i < len(matches)` which may remove matches from the list: it removes none, as no two begin at one place."""

    name = "no match is removed: the words of the table never begin at one place"

    def match(self, I, s, fr):
        if not (isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.Lt) and isinstance(s.test.left, ast.Name)):
            return False
        r = s.test.comparators[0]
        return isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "len" and len(r.args) == 1 and isinstance(r.args[0], ast.Name)

    def run(self, I, s, fr):
        i0 = I.num(I.eval(s.test.left, fr))
        lst = I.force(I.eval(s.test.comparators[0].args[0], fr))
        if i0 is None or i0.const != 0 or not isinstance(lst, Ref) or guarded.rows_of(I.get(lst)) is None:
            raise Unsupported("loop over the matches")
        name = s.test.left.id
        n = I.seq_len(lst)
        before = I.get(lst)
        assigned = {t.id for x in s.body for t in ast.walk(x) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)} - {name}
        heap = set(I.st.heap)

        T = I.st.ghost["words"]
        rows = tuple(guarded.rows_of(before))
        if before.items and before.pre is not None:
            raise Unsupported("loop over the matches")
        if before.pre is not None:
            rows = before.pre.tag.rows

        def iteration(r):
            i = I.int_("i")
            g, m = rows[r]
            k = guarded.count(I, rows[:r])
            I.assume(z3.And(guarded.zbool(g), guarded.zbool(I.cmp_num(i, k, "==")), i.z() >= 0, i.z() < iz(n.t)))
            word = I.get(m).fields.get("_group") if isinstance(m, Ref) and isinstance(I.get(m), HInst) else None
            if word not in T.has:
                raise Unsupported("loop over the matches")
            for v in T.words:
                if v != word:
                    T.disjoint(I, v, word)
            I.guard_index = (i.t, rows, r)
            I.set_var(name, i, fr)
            for a in assigned:
                I.set_var(a, Havoc(a), fr)
            old = dict(I.st.heap)
            try:
                I.exec_block(s.body, fr)
            except ContinueEx:
                pass
            if I.get(lst) is not before:
                raise Unsupported("matches are removed")
            for k, o in old.items():
                if k != fr.id and I.st.heap.get(k) is not o:
                    raise Unsupported("loop over the matches changes something else")
            v = I.get(fr).vars
            if any(v.get(k) is not x and k != name and k not in assigned for k, x in old[fr.id].vars.items()):
                raise Unsupported("loop over the matches changes something else")
            j = I.num(v[name])
            if j is None or not I.implied(I.cmp_num(j, i, ">")) or not I.implied(I.cmp_num(j, I.binop_num("+", i, ONE_), "<=")):
                raise Unsupported("counter of the loop over the matches")

        for r in range(len(rows)):
            if I.guard_focus is not None and not any(guarded.zbool(rows[r][0]).eq(f) for f in I.guard_focus):
                continue      # this match is the subject of the unit of its word
            try:
                outs = I.explore(lambda: iteration(r))
            finally:
                I.guard_index = None
            if any(o.kind != "normal" for o in outs):
                raise Unsupported("loop over the matches is left")
        for a in assigned:
            I.set_var(a, Havoc(a), fr)
        I.set_var(name, n, fr)
        if s.orelse:
            raise Unsupported("else of a loop")


ONE_ = Num(1, INT)


def table_of(I):
    """The table of the known commands: {command: (reference, {letter: None}) or None}."""
    known = I.force(cls(I, "state_generator:known_commands"))
    o = I.get(known)
    out = {}
    for k, (g, v) in o.ent.items():
        v = I.force(v)
        if v is not None and not (isinstance(v, Ref) and isinstance(I.get(v), HDict) and all(x is None for _, x in I.get(v).ent.values())):
            raise Unsupported("table of the commands")
        out[k] = v
    return known, out


def extract_fn(I):
    return cls(I, "state_generator:arg_extract")


def result_entries(I, r):
    r = I.force(r)
    ok = isinstance(r, Ref) and isinstance(I.get(r), HDict)
    I.oblige(TRUE if ok else FALSE, "the result is a dictionary")
    return dict(I.get(r).ent) if ok else {}


def every(I, g, v, kind, what, fact=None, what2=None):
    """Where g holds v is of a kind (and a fact holds of it)."""
    alts = v.alts if isinstance(v, Phi) else [(TRUE, v)]
    bad = [h for h, x in alts if not kind(x)]
    I.oblige(z3.Implies(g, z3.Not(z3.Or(bad))) if bad else TRUE, what)
    if fact is not None:
        I.oblige(z3.And([z3.Implies(z3.And(g, h), zb(fact(x))) for h, x in alts if kind(x)]), what2)


def u_line(w):
    def fn(I):
        I.guarded = True
        known, table = table_of(I)
        I.oblige(TRUE if set(TABLE) <= set(table) else FALSE, "the table holds the known commands")
        T = Words(I, "line", table)
        I.guard_focus = [T.has[w]]
        line = T.text()
        nxt = T.next(I, w) if w != ";" else None
        nested = [k for k, v in table.items() if v is not None]
        if w in nested:
            # argument words are a letter and a number each: no number altogether
            I.assume(z3.Implies(T.code(w), z3.Not(T.isnum(T.end[w].z(), nxt.z()))))

        def extract(J, v):
            s, d = J.force(v["string"]), J.force(v["key_dict"])
            k = [x for x in nested if J.same(table[x], d)]
            if len(k) != 1:
                raise Unsupported("parsing with another table")
            if k[0] != w:
                return J.alloc(HInst(PARSED, {"of": k[0]}, True))
            J.oblige(TRUE if isinstance(s, SText) and s.src is T else FALSE, "arguments are parsed from the text of the line")
            if isinstance(s, SText):
                J.oblige(z3.And(eqn(J, s.a, T.end[w]), eqn(J, s.b, nxt)), "the text of the arguments is all between a command and the next")
            return J.alloc(HInst(PARSED, {"of": w}, True))

        s = Stub("state_generator.arg_extract", extract)
        I.contracts[s.target] = s
        I.bypass = set(I.bypass) | {s.target}
        ent = result_entries(I, I.call(extract_fn(I), [], {"string": line, "key_dict": known}))
        g, v = ent.get(w, (FALSE, None))
        I.oblige(zb(g) == T.code(w), "a command or comment is found iff it is there")
        I.oblige(TRUE if set(ent) <= set(table) else FALSE, "nothing else is found")
        if w in nested:
            every(I, T.code(w), v, lambda x: isinstance(x, Ref) and isinstance(I.get(x), HInst) and I.get(x).cls is PARSED and I.get(x).fields["of"] == w,
                  "the arguments are parsed with the table of their command")
        if w == ";":
            every(I, T.code(w), v, lambda x: isinstance(x, SText) and x.src is T and not set(x.ops) - {"no '\\n'", "rstrip '\\n'"},
                  "the comment is part of the line", lambda x: z3.And(zb(eqn(I, x.a, T.end[w])), zb(eqn(I, x.b, T.n))), "the comment is all after the first semicolon")
    return fn


PARSED = ClassVal("parsed arguments", [], {}, "contract", "parsed arguments")


def u_args(command, part=None):
    def fn(I):
        I.guarded = True
        known, table = table_of(I)
        if table.get(command) is None:
            raise Unsupported("table of a command")
        letters = list(I.get(table[command]).ent)
        I.oblige(TRUE if set(TABLE[command]) <= set(letters) else FALSE, "the table holds the letters of the command")
        T = Words(I, "arguments", dict.fromkeys(letters))
        some = letters if part is None else part
        val = {}
        for w in some:
            nx = T.next(I, w)
            I.assume(z3.Implies(T.has[w], z3.And(nx.z() > T.end[w].z(), T.isnum(T.end[w].z(), nx.z()))))
            val[w] = Num(Poly.atom(T.value(T.end[w].z(), nx.z())), FLT)
        if len(letters) > 10:
            I.guard_focus = [T.has[w] for w in some]
        ent = result_entries(I, I.call(extract_fn(I), [], {"string": T.text(), "key_dict": table[command]}))
        I.oblige(TRUE if set(ent) <= set(letters) else FALSE, "no other argument is found")
        for w in some:
            g, v = ent.get(w, (FALSE, None))
            I.oblige(zb(g) == T.has[w], "an argument is found iff it is there")
            every(I, T.has[w], v, lambda x: isinstance(x, Num) and x.ty == FLT, "an argument is a number",
                  lambda x: eqn(I, x, val[w]), "an argument has the value of its word")
    return fn


# the commands and letters the property speaks of
TABLE = {
    **COMMANDS, "G2": "EFIJPRSXY", "G3": "EFIJPRSXY", "G10": "S", "G11": None, "G28": "LORXYZ", "G29": "ABCDEFHIJKLPQRSTUVWXY", ";": None,
}


def units():
    us = [Unit("reading a file", u_read)]
    for w in TABLE:
        us.append(Unit(f"parsing a line, {w if w != ';' else 'comment'}", u_line(w), merge=True, whiles=[NothingRemoved()], budget=100000))
    for w, s in TABLE.items():
        if s and len(s) > 10:
            for i in range(0, len(s), 4):
                us.append(Unit(f"parsing the arguments of {w}, {s[i:i + 4]}", u_args(w, s[i:i + 4]), merge=True, whiles=[NothingRemoved()], budget=100000))
        elif s:
            us.append(Unit(f"parsing the arguments of {w}", u_args(w), merge=True, whiles=[NothingRemoved()], budget=100000))
    return us
