"""setup_cmd: nothing has to be built; checks that the tools the checks need are there."""
import os, subprocess, sys
import z3
s = z3.Solver(); x = z3.Real("x"); s.add(x * x == 2, x > 0); assert s.check() == z3.sat
cpy = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
subprocess.run([cpy, "-c", "import numpy, yaml"], check=True)
print("ok", z3.get_version_string(), sys.version.split()[0])
