"""replay.py PROPERTY SEED CASE : rebuild /repo with sanitizers and run one native case"""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import native
try: from nativecfg import CFG
except ImportError: CFG = {}
pid, seed, case = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
d = tempfile.mkdtemp(prefix="verif-replay.")
try:
    m = CFG.get(pid, {})
    bad, out = native.confirm(native.build(d, pid, m.get("cflags", ()), m.get("wraps", ())), seed, case)
    print(out); print("REPRODUCED" if bad else "not reproduced")
finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
