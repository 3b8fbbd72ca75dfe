"""Rewrites proved/<module>.json: which plan step proved each obligation (hash of its text)."""
import json, os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif")
from pyvc import driver
for m in sys.argv[1:]:
    f = f"/verif/proved/{m}.json"
    rs, tm = driver.verify("contracts." + m, 3000, 20000, order=json.load(open(f)) if os.path.exists(f) else None)
    d, bad = {}, 0
    for r in rs:
        if r.error: print("ERROR", r.name, r.error)
        for o in r.obls:
            if not o["trivial"]:
                if o["verdict"].status == "proved": d[o["hash"]] = o["verdict"].note
                else: bad += 1; print("not proved", o["name"])
    json.dump(d, open(f, "w"), sort_keys=True, indent=0)
    print(m, len(d), "recorded", bad, "open", tm)
