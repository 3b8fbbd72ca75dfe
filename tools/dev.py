"""Development helper: python3-vt tools/dev.py c16 [substring]"""
import sys, collections
sys.path.insert(0, "/verif")
from pyvc import driver
args = [a for a in sys.argv[1:] if not a.startswith("-")]
mod = args[0]
only = args[1] if len(args) > 1 else None
q = int(args[2]) if len(args) > 2 else 3000
l = int(args[3]) if len(args) > 3 else 10000
rs, tm = driver.verify("contracts." + mod, q, l, only=only)
tot = collections.Counter()
for r in rs:
    c = collections.Counter()
    for o in r.obls:
        c["trivial" if o["trivial"] else o["verdict"].status] += 1
    tot.update(c)
    flag = "" if not r.error else f" ERROR {r.error[0]}: {r.error[1][-1500:]}"
    print(f"{r.name}: {dict(c)} paths={r.paths} ends={r.ends} {r.time:.1f}s cover={collections.Counter(getattr(r,'cover_status',[]))}{flag}")
    for o in r.obls:
        if not o["trivial"] and o["verdict"].status != "proved":
            v = o["verdict"]
            print("   ", v.status, o["name"], "@", o["where"], [t for t in v.tries][:12])
            if "-v" in sys.argv:
                print("      goal", o["goal"][:600]); print("      model", v.model)
        elif not o["trivial"] and "-t" in sys.argv and o["verdict"].time > 3:
            print("    slow", round(o["verdict"].time, 1), o["name"], o["verdict"].tries)
print(dict(tot), tm)
