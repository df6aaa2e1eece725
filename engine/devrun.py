import sys, os, importlib, time
sys.path.insert(0, "/verif/engine"); sys.path.insert(0, "/verif/contracts")
import verify
from verify import *
m = importlib.import_module(sys.argv[1])
names = sys.argv[2:]
us = [u for u in m.UNITS if not names or any(n in u.name for n in names)]
t = time.time()
for r in run_units(us, int(os.environ.get("B", "300")), verbose=True):
    print(r["unit"], r["status"], {k: v for k, v in r.items() if k in ("proved", "kinds", "covers", "solver_time", "wall", "loops", "models")}, r.get("error", ""))
    for f in (r["failed"] + r["unknown"])[:8]: print("    ", f["status"], f["kind"], f["desc"], "@", f["where"], "%.1fs" % f["t"])
print("total", time.time() - t)
