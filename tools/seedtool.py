"""Planted bugs: tools/seeds/<id>.py define them; this writes /verif/seeded/<id>/ and tries them.

python3 tools/seedtool.py make|try [id ...]
"""
import json, os, subprocess, sys, runpy, glob, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "pyGCodeDecode/"
COPY = tempfile.mkdtemp(prefix="seed_") + "/repo"


def load(i):
    return runpy.run_path(f"{HERE}/tools/seeds/{i}.py")


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def make(i):
    d = load(i)
    out = f"{HERE}/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    for f, old, new in d["EDITS"]:
        p = COPY + "/" + PK + f
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {COPY} diff").stdout
    sh(f"git -C {COPY} checkout -- .")
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n" + d["DEMO"].lstrip("\n"))
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)


def attempt(i, check=True):
    d = load(i)
    out = f"{HERE}/seeded/{i}"
    r0 = sh(f"bash {out}/demo.sh", cwd=COPY)
    a = sh(f"git -C {COPY} apply {out}/patch.diff")
    assert a.returncode == 0, a.stderr
    try:
        r1 = sh(f"bash {out}/demo.sh", cwd=COPY)
        t = sh(f"cd {COPY} && PYTHONPATH={COPY} MPLBACKEND=Agg /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_planner_block.py tests/test_gcode_interpreter.py::test_setup 2>&1 | tail -1")
        c = sh(f"python3 check.py {d['PROPERTY']} quick", cwd=HERE, env={**os.environ, "PYVC_REPO": COPY}) if check else None
    finally:
        sh(f"git -C {COPY} checkout -- .")
    print(f"{i}: demo clean {r0.returncode} patched {r1.returncode} | {t.stdout.strip()} | check {c.returncode if c else ''}")
    if r0.returncode or not r1.returncode:
        print("   ", r0.stdout[-300:], r0.stderr[-600:], r1.stdout[-300:])
    if c:
        print("    " + "\n    ".join(l[:260] for l in c.stdout.strip().splitlines()[-6:]))
    sys.stdout.flush()


assert sh("git -C /repo status --porcelain").stdout == "", "repo dirty"
sh(f"cp -a /repo {COPY}")
ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.path.basename(f)[:-3] for f in glob.glob(f"{HERE}/tools/seeds/*.py"))
for i in ids:
    make(i)
    if sys.argv[1] == "try":
        attempt(i, "-n" not in sys.argv)
shutil.rmtree(os.path.dirname(COPY))
