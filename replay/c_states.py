"""Oracles C05, C06, C15, C18."""

import itertools
import math
import os

from base import *  # noqa: F401,F403
from base import CUE, close, fmt, gcode_file, need, norm, p4, quiet, reference_states, render, rnd_program, rnd_setup, states_of, vclose

G_ARGS = {
    "G0": "EXYZF", "G1": "EXYZF", "M203": "EXYZ", "M204": "PRST", "M205": "EJSXYZ", "G4": "PS", "M82": "", "M83": "", "G20": "", "G21": "",
    "G90": "", "G91": "", "G92": "EXYZ", "G2": "EFIJPRSXY", "G3": "EFIJPRSXY", "G10": "S", "G11": "", "G28": "LORXYZ", "G29": "ABCDEFHIJKLPQRSTUVWXY",
}
UNSUPPORTED = ["G2", "G3", "G10", "G11", "G28", "G29"]


def gen_states(rng):
    s = rnd_setup(rng)
    if rng.random() < 0.7:
        s["layer_cue"] = CUE
    return {"prog": rnd_program(rng, 1, 16), "setup": s}


class C05:
    gen = gen_states

    def check(c):
        st, ref = states_of(c["prog"], c["setup"]), reference_states(c["prog"], c["setup"])
        need(len(st) == len(ref), "%d states for %d lines", len(st), len(ref) - 1)
        for s, r in zip(st, ref):
            need(vclose(p4(s.state_position), r["pos"], 1e-8 * (1 + norm(r["pos"]))), "position after line %s is %s, prescribed %s", r["line"], p4(s.state_position), r["pos"])


class C06:
    gen = gen_states

    def check(c):
        st, ref = states_of(c["prog"], c["setup"]), reference_states(c["prog"], c["setup"])
        need(len(st) == len(ref), "%d states for %d lines", len(st), len(ref) - 1)
        for n, (s, r) in enumerate(zip(st, ref)):
            w = f"line {r['line']}"
            need(s.prev_state is (st[n - 1] if n else None), "%s: wrong prev link", w)
            need(s.next_state is (st[n + 1] if n + 1 < len(st) else None), "%s: wrong next link", w)
            if n:
                need(s.line_number == r["line"], "%s: line number %r", w, s.line_number)
                need(s.comment == r["comment"], "%s: comment %r instead of %r", w, s.comment, r["comment"])
                need(s.layer == r["layer"], "%s: layer %r instead of %r", w, s.layer, r["layer"])
                need(s.state_p_settings.units == r["set"]["units"], "%s: units %r instead of %r", w, s.state_p_settings.units, r["set"]["units"])
            for k in ("speed", "p_acc", "jerk", "vX", "vY", "vZ", "vE"):
                v = getattr(s.state_p_settings, k)
                need(close(v, r["set"][k], 1e-9 * (1 + abs(r["set"][k]))), "%s: %s is %r instead of %r", w, k, v, r["set"][k])


# ---------------------------------------------------------------- parsing
def num_text(rng, k=None):
    return rng.choice(["0", "1", "-1", "10", "200", "0.5", "-0.05", ".5", "5.", "+3", "12.345", "-100.25", "1234.5", "28", "9", "20"])


def gen_line(rng):
    """Token list: [cmd, [[arg, number text, gap before arg, gap before number]...], gap after command]."""
    n = rng.choice([0, 1, 1, 1, 1, 2, 2, 3, 4])
    names = rng.sample(sorted(G_ARGS), n)
    if n >= 2 and rng.random() < 0.4:
        pair = rng.choice([("G1", "G10"), ("G1", "G11"), ("G2", "G20"), ("G2", "G21"), ("G2", "G28"), ("G2", "G29"), ("G10", "G11"), ("G90", "G92"), ("M203", "M204")])
        names[:2] = rng.sample(pair, 2)
        names = list(dict.fromkeys(names))
    toks = []
    gap = rng.choice(["", " ", "  ", " "])
    for c in names:
        args = [k for k in G_ARGS[c] if rng.random() < (0.5 if len(G_ARGS[c]) < 8 else 0.15)]
        rng.shuffle(args)
        toks.append([c, [[k, num_text(rng), gap, rng.choice(["", "", "", " "])] for k in args], rng.choice([gap, "", " "])])
    com = None
    if rng.random() < 0.5:
        com = rng.choice(["", " comment", "G1 X5", " G28 ; G2", "LAYER_CHANGE", "TYPE:Inner wall", " M204 P3 ;; x", "E", " 1", " G1 5", "G92 0", " G28 nan", "M204 12.5;G4 P3", "G4 inf", " G2  7 ;"])
    return {"toks": toks, "comment": com, "lead": rng.choice(["", "", " "]), "sep": rng.choice(["", " "]), "nl": rng.random() < 0.8}


def line_text(l):
    s = l["lead"]
    prev_gap = ""
    for i, (c, args, after) in enumerate(l["toks"]):
        s += prev_gap + c
        for k, v, g, h in args:
            s += g + k + h + v
        prev_gap = after
    if l["comment"] is not None:
        s += l["sep"] + ";" + l["comment"]
    return s + ("\n" if l["nl"] else "")


def ambiguous(text_l):
    return False


def expected(l):
    d = {}
    for c, args, _ in l["toks"]:
        d[c] = {k: float(v) for k, v, _, _ in args}
    return d


def check_parsed(got, l, w):
    exp = expected(l)
    cm = got.get(";")
    if l["comment"] is None:
        need(cm is None, "%s: comment %r, none expected", w, cm)
    else:
        need(cm is not None and cm.rstrip("\n") == l["comment"], "%s: comment %r instead of %r", w, cm, l["comment"])
    cmds = {k for k in got if k not in (";", "line_number")}
    need(cmds == set(exp), "%s: commands %s instead of %s", w, sorted(cmds), sorted(exp))
    for c, a in exp.items():
        g = got[c]
        if not G_ARGS[c]:
            continue
        need(isinstance(g, dict) and set(g) == set(a), "%s: arguments of %s are %s instead of %s", w, c, g, a)
        for k, v in a.items():
            need(isinstance(g[k], float) and g[k] == v, "%s: %s %s is %r instead of %r", w, c, k, g[k], v)


class C15:
    def gen(rng):
        return {"lines": [gen_line(rng) for _ in range(rng.randint(1, 6))]}

    def FIXED():
        """Every ordered selection of up to two commands, with no / one / all arguments, tight and spaced."""
        out = []
        for names in itertools.chain([()], itertools.permutations(sorted(G_ARGS), 1), itertools.permutations(sorted(G_ARGS), 2)):
            for mode in range(3):
                for gap in ("", " "):
                    toks = []
                    for c in names:
                        args = list(G_ARGS[c])
                        args = [] if mode == 0 else args[:1] if mode == 1 else args
                        toks.append([c, [[k, str(i + 1) + ".5", gap, ""] for i, k in enumerate(args)], gap])
                    for com in (None, "G1 X1"):
                        out.append({"toks": toks, "comment": com, "lead": "", "sep": gap, "nl": True})
        return [{"lines": out[i:i + 200]} for i in range(0, len(out), 200)]

    def check(c):
        from pyGCodeDecode.state_generator import arg_extract, known_commands, read_gcode_to_dict_list

        lines = [l for l in c["lines"] if not tight_clash(l)]
        for l in lines:
            t = line_text(l)
            check_parsed(arg_extract(string=t, key_dict=known_commands), l, repr(t))
        text = "".join(line_text({**l, "nl": True}) for l in lines)
        with quiet():
            got = read_gcode_to_dict_list(filepath=gcode_file(text))
        need(len(got) == len(lines), "%d entries for %d lines", len(got), len(lines))
        for n, (g, l) in enumerate(zip(got, lines)):
            need(g.get("line_number") == n + 1, "entry %d has line number %r", n + 1, g.get("line_number"))
            check_parsed(g, l, f"line {n + 1} {line_text(l)!r}")


def tight_clash(l):
    """Lines whose text is ambiguous: command number directly followed by digits never occurs (arguments begin with a letter)."""
    return False


class C18:
    def gen(rng):
        lines = [gen_line(rng) for _ in range(rng.randint(0, 10))]
        for l in lines:
            if rng.random() < 0.5 and not l["toks"]:
                l["toks"] = [[rng.choice(UNSUPPORTED), [], " "]]
        return {"lines": lines}

    def check(c):
        import copy
        from pyGCodeDecode.state_generator import check_for_unsupported_commands

        prog = []
        for n, l in enumerate(c["lines"]):
            d = {k: (v if G_ARGS[k] else "") for k, v in expected(l).items()}
            if l["comment"] is not None:
                d[";"] = l["comment"]
            d["line_number"] = n + 1
            prog.append(d)
        before = copy.deepcopy(prog)
        with quiet():
            got = check_for_unsupported_commands(line_dict_list=prog)
        exp = {}
        for l in c["lines"]:
            for k in expected(l):
                if k in UNSUPPORTED:
                    exp[k] = exp.get(k, 0) + 1
        need(dict(got) == exp, "reported %s, occurring %s", got, exp)
        need(prog == before and [list(x) for x in prog] == [list(x) for x in before], "the parsed program was changed")


ORACLES = {"C05": C05, "C06": C06, "C15": C15, "C18": C18}
