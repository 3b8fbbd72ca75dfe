"""Quietness: behaviour-preserving edits on which no check may raise an alarm.

usage: refac.py [name ...]      (all when none is given); works on a scratch copy of /repo.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from refac_list import EDITS  # noqa: E402

for name, (props, edits) in EDITS.items():
    if sys.argv[1:] and not any(a in name for a in sys.argv[1:]):
        continue
    d = "/tmp/refac_" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(d, "pyGCodeDecode", f)
        s = open(p).read()
        assert s.count(old) >= 1, (name, f, old[:60], s.count(old))
        open(p, "w").write(s.replace(old, new))
    t = subprocess.run([sys.executable, "-m", "compileall", "-q", os.path.join(d, "pyGCodeDecode")], capture_output=True, text=True)
    print("==", name, "" if t.returncode == 0 else t.stdout + t.stderr, flush=True)
    for q in props.split():
        r = subprocess.run([sys.executable, os.path.join(HERE, "..", "check.py"), q], capture_output=True, text=True, env={**os.environ, "PYVC_REPO": d})
        out = [x[:200] for x in r.stdout.splitlines() if any(w in x for w in ("VIOL", "BOUNDED", "FAILED", "obligations"))]
        print("  ", q, r.returncode, flush=True)
        for x in out[:8] + (out[-1:] if len(out) > 8 else []):
            print("      ", x, flush=True)
    shutil.rmtree(d, ignore_errors=True)
