"""Concrete side of the checks: runs the real code with CPython and judges it by the properties' text."""

import contextlib
import io
import json
import math
import os
import random
import shutil
import sys
import tempfile

REPO = os.environ.get("PYVC_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pyvc_replay_")
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Bad(Exception):
    """The property is violated by this case."""


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)


def close(a, b, tol):
    return abs(a - b) <= tol


def vclose(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def norm(v):
    return math.sqrt(sum(x * x for x in v))


# ---------------------------------------------------------------- programs
FIRMWARES = [None, "marlin_jd", "klipper", "marlin_jerk", "MKA"]


def rnd_setup(rng, **kw):
    d = {
        "p_vel": rng.choice([5, 20, 35.0, 50, 100, 60.5]), "p_acc": rng.choice([50, 100, 200.0, 500, 1000, 3000, 125.5]),
        "jerk": rng.choice([0, 0.5, 2, 5, 10, 10.0, 20, 100, 5000]), "vX": 200, "vY": 210, "vZ": 40.5, "vE": 33,
        "X": 0, "Y": 0, "Z": 0, "E": 0, "firmware": rng.choice(FIRMWARES),
    }
    if rng.random() < 0.4:
        d.update({k: rng.choice([0, 1, -3, 7.5, round(rng.uniform(-9, 9), 2)]) for k in "XYZE"})
    d.update(kw)
    return d


def coord(rng):
    return rng.choice([lambda: rng.randint(-5, 5), lambda: rng.randint(-50, 50) / 10, lambda: round(rng.uniform(-60, 60), 3),
                       lambda: round(rng.uniform(-1, 1), 2), lambda: 0])()


def extr(rng):
    return rng.choice([0, 1, -1, 0.1, 0.05, 2.5, -0.8, round(rng.uniform(-2, 4), 4)])


CUE = "LAYER_CHANGE"


def rnd_line(rng, st, opts):
    """One structured line: {"cmds": [[name, {arg: num}], ...], "comment": str|None}."""
    r = rng.random()
    cmds, comment = [], None
    if r < 0.62:
        a = {}
        pat = rng.random()
        if pat < 0.08:
            a["E"] = extr(rng)
        elif pat < 0.12:
            a["Z"] = coord(rng)
        elif pat < 0.2 and st.get("last"):
            a.update(st["last"])          # same words again: straight line in relative mode, no move in absolute
        elif pat < 0.26 and st.get("last"):
            a.update({k: -v for k, v in st["last"].items()})
        else:
            for k in "XY":
                if rng.random() < 0.75:
                    a[k] = coord(rng)
            if rng.random() < 0.15:
                a["Z"] = coord(rng)
            if rng.random() < 0.5:
                a["E"] = extr(rng)
        st["last"] = {k: v for k, v in a.items() if k != "F"}
        if rng.random() < 0.25:
            a["F"] = rng.choice([60, 300, 600, 1200, 3000, 6000, 9000, 1234.5])
        cmds.append([rng.choice(["G0", "G1", "G1"]), a])
    elif r < 0.69:
        cmds.append([rng.choice(["G90", "G91", "M82", "M83"]), {}])
    elif r < 0.72 and opts.get("units", True):
        cmds.append([rng.choice(["G20", "G21", "G21"]), {}])
    elif r < 0.77:
        cmds.append(["G92", {k: rng.choice([0, 0, 1, -2.5, coord(rng)]) for k in "XYZE" if rng.random() < 0.5}])
    elif r < 0.80:
        cmds.append(["M204", {"P": rng.choice([50, 100, 300, 800, 2000.0])}])
    elif r < 0.83:
        cmds.append(["M205", {"X": rng.choice([0, 1, 5, 8.5, 30])}])
    elif r < 0.85:
        cmds.append(["M203", {k: rng.choice([10, 100.5, 300]) for k in "XYZE" if rng.random() < 0.6}])
    elif r < 0.91 and opts.get("dwell", True):
        d = {}
        if rng.random() < 0.6:
            d["P"] = rng.choice([0, 1, 100, 250.5, 2000])
        if rng.random() < 0.5 or not d:
            d["S"] = rng.choice([0, 1, 0.25, 3])
        cmds.append(["G4", d])
    elif r < 0.95:
        comment = rng.choice([CUE, CUE, "LAYER_CHANGES", "a comment", "TYPE:WALL", "G1 X99"])
    if cmds and rng.random() < 0.06 and opts.get("combine", True):
        extra = rnd_line(rng, {}, {**opts, "combine": False})
        have = {c for c, _ in cmds}
        for c, a in extra["cmds"]:
            if c not in have and not (c in ("G0", "G1") and have & {"G0", "G1"}) and not (
                    {c} | have >= {"G90", "G91"} or {c} | have >= {"M82", "M83"} or {c} | have >= {"G20", "G21"}):
                cmds.append([c, a])
    if comment is None and rng.random() < 0.1:
        comment = rng.choice([CUE, "x", "", " padded ", "E5 ;; two"])
    return {"cmds": cmds, "comment": comment}


def rnd_program(rng, nmin=2, nmax=14, **opts):
    st = {}
    return [rnd_line(rng, st, opts) for _ in range(rng.randint(nmin, nmax))]


def fmt(x):
    if isinstance(x, int):
        return str(x)
    s = repr(float(x))
    if "e" in s or "E" in s:
        s = "%.17f" % x
    return s


def render_line(l):
    parts = []
    for c, a in l["cmds"]:
        parts.append(" ".join([c] + [k + fmt(v) for k, v in a.items()]))
    s = " ".join(parts)
    if l["comment"] is not None:
        s += (" " if s else "") + ";" + l["comment"]
    return s


def render(prog):
    return "\n".join(render_line(l) for l in prog) + ("\n" if prog else "")


def reference_states(prog, setup):
    """Independent reference semantics: physical position and settings after each line."""
    phys = {k: float(setup[k]) for k in "XYZE"}
    org = {k: 0.0 for k in "XYZE"}
    ab, abe, unit = True, True, 1.0
    s = {"speed": setup["p_vel"], "p_acc": setup["p_acc"], "jerk": setup["jerk"], "units": "SImm"}
    for k in "XYZE":
        s["v" + k] = setup["v" + k]
    out = [{"pos": [phys[k] for k in "XYZE"], "set": dict(s), "pause": None, "comment": None, "line": None, "layer": None}]
    layer = 0
    for n, l in enumerate(prog):
        d = {c: a for c, a in l["cmds"]}
        if "G90" in d:
            ab = True
        if "G91" in d:
            ab = False
        if "M82" in d:
            abe = True
        if "M83" in d:
            abe = False
        if "G20" in d:
            unit, s["units"] = 25.4, "inch"
        if "G21" in d:
            unit, s["units"] = 1.0, "SImm"
        for c in ("G0", "G1"):
            if c in d:
                for k, v in d[c].items():
                    if k == "F":
                        s["speed"] = v * unit / 60
                    elif abe if k == "E" else ab:
                        phys[k] = org[k] + v * unit
                    else:
                        phys[k] += v * unit
        if "G92" in d:
            for k, v in d["G92"].items():
                org[k] = phys[k] - v * unit
        if "M204" in d and "P" in d["M204"]:
            s["p_acc"] = d["M204"]["P"] * unit
        for k, v in d.get("M203", {}).items():
            s["v" + k] = v * unit
        if "X" in d.get("M205", {}):
            s["jerk"] = d["M205"]["X"] * unit
        pause = None
        if "G4" in d:
            if "P" in d["G4"]:
                pause = d["G4"]["P"] / 1000
            if "S" in d["G4"]:
                pause = d["G4"]["S"]
        com = l["comment"]
        if "layer_cue" in setup and com is not None and com.strip() == setup["layer_cue"]:
            layer += 1
        out.append({"pos": [phys[k] for k in "XYZE"], "set": dict(s), "pause": pause, "comment": None if com is None else com.strip(),
                    "line": n + 1, "layer": layer if "layer_cue" in setup else None})
    return out


# ---------------------------------------------------------------- running the real code
_setup_file = None


def mk_setup(d):
    import yaml
    from pyGCodeDecode.gcode_interpreter import setup

    d = dict(d)
    cue = d.pop("layer_cue", None)
    name = "prn"
    p = os.path.join(scratch(), "presets.yaml")
    init = {k: d.pop(k) for k in "XYZE"}
    with open(p, "w") as f:
        yaml.dump({name: d}, f)
    with quiet():
        s = setup(presets_file=p, printer=name, layer_cue=cue)
        s.set_initial_position(init)
    return s


def gcode_file(text):
    p = os.path.join(scratch(), "prog.gcode")
    with open(p, "w") as f:
        f.write(text)
    return p


def simulate(prog, setup, unit="SImm"):
    from pyGCodeDecode.gcode_interpreter import simulation

    text = prog if isinstance(prog, str) else render(prog)
    with quiet():
        return simulation(gcode_path=gcode_file(text), initial_machine_setup=mk_setup(setup), output_unit_system=unit)


def states_of(prog, setup):
    from pyGCodeDecode.state_generator import generate_states

    text = prog if isinstance(prog, str) else render(prog)
    with quiet():
        return generate_states(filepath=gcode_file(text), initial_machine_setup=mk_setup(setup).get_dict())


def segs_of(sim):
    return [s for b in sim.blocklist for s in b.get_segments()]


def p4(x):
    return [float(v) for v in x.get_vec(withExtrusion=True)]


def jf(d):
    return json.loads(json.dumps(d))
