"""check <property> quick|thorough : proves the property's units on /repo's current sources, turns a failed
obligation into a failing input with the native driver, writes /verif/evidence/<id>.json."""
import os, sys, time, json, importlib, shutil, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, "contracts"))
import tempfile
SCRATCH = tempfile.mkdtemp(prefix="verif-chk.")
os.environ["VERIF_BUILD"] = os.path.join(SCRATCH, "ir")
import native

TRUST = ["clang 18 front end (C to LLVM IR, -O0) and the LLVM x86-64 data layout",
         "the verifier in /verif/engine: IR parser, symbolic executor, term simplifier (self-test: engine/test_terms.py), BV-to-integer translation",
         "z3 5.3 and cvc5 1.1.2",
         "C library contracts in engine/models.py (mem*, str*, malloc/calloc/free, stdio) as listed under assumed_contracts"]

def known(pid):
    """known findings: lines 'known: property=<id> key=<text contained in the report> <what fails>'"""
    out = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                k = l.split(" key=", 1)[1]
                key, _, txt = k.partition(" | ")
                out.append((key, txt))
    except FileNotFoundError: pass
    return out

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quick = tier != "thorough"
    limit = 780.0
    C = None; units = []; res = []; note = []
    drv = {}
    def build_native():
        try:
            mod = NAT.get(pid, {})
            if os.path.exists(os.path.join(native.NAT, pid + ".c")):
                drv["bin"] = native.build(os.path.join(SCRATCH, "nat"), pid, mod.get("cflags", ()), mod.get("wraps", ()))
        except Exception as e: drv["err"] = str(e)
    NAT = {}
    try:
        import nativecfg; NAT = nativecfg.CFG
    except ImportError: pass
    th = threading.Thread(target=build_native); th.start()
    nat = {}; natfail = None; st_nat = {"cases": 0, "nt": 0, "secs": 0}
    def run_native(sd, secs):
        """bounded search / replay: -> confirmed failure or None"""
        f, c2, n2 = native.run(drv["bin"], sd, secs)
        st_nat["cases"] += c2; st_nat["nt"] += n2; st_nat["secs"] += secs
        if f is None: return None
        again, out = native.confirm(drv["bin"], f["seed"], f["case"]) if f["case"] >= 0 else (True, f["stderr"])
        f["replayed"] = again; f["replay_output"] = out
        if again: return f
        note.append("a native alarm did not reproduce and is not reported: " + f["what"])
        return None
    base = NAT.get(pid, {}).get("secs", 8)
    skipped = 0
    try:
        C = importlib.import_module(pid)
        units = [u for u in C.UNITS if not (quick and u.opt.get("thorough"))]
        skipped = len(C.UNITS) - len(units)
        import verify
        # compile each source up front: a source that does not translate leaves its units undecided
        ok = []
        for u in units:
            try:
                for r in u.srcs: verify.module(r)
                ok.append(u)
            except Exception as e:
                res.append(dict(verify.dead(u, "front end: %s" % str(e)[:300]), status="unsupported"))
        th.join()
        if "bin" in drv: natfail = run_native(seed, base if quick else 60)
        # a failing input at hand decides the run: the proofs are then only asked for the obligations it breaks
        total_t = limit * (0.72 if quick else 0.85) if natfail is None else 45
        res += verify.run_units(ok, 240 if quick else 500, jobs=8, total=total_t, verbose=bool(os.environ.get("VERIF_VERBOSE")), stop_failed=2 if natfail is None else 1)
    except ModuleNotFoundError as e:
        if e.name != pid: raise
    except Exception:
        note.append("verifier error: " + traceback.format_exc()[-1500:])
    th.join()
    failed = [(r, d) for r in res for d in r["failed"]]
    if failed: res = [r for r in res if not str(r.get("error", "")).startswith("skipped")]
    undec = [r for r in res if r["status"] in ("unknown", "undecided", "unsupported", "error", "vacuous") and not r["failed"]]
    # ---- native: a failed or undecided obligation earns a longer search for a failing input
    if "bin" in drv:
        if natfail is None and (failed or undec or not C):
            secs = min(base * 4, max(5, limit - (time.time() - t0)))
            natfail = run_native(seed + 1000, secs)
        if natfail is None and failed:
            natfail = run_native(seed + 2000, min(base * 4, max(5, limit - (time.time() - t0))))
        nat = {"driver": "native/%s.c" % pid, "cases": st_nat["cases"], "nontrivial": st_nat["nt"], "seconds": st_nat["secs"],
               "note": "bounded: seeded cases against the real, sanitizer-instrumented code; never counted as proved"}
    elif "err" in drv: note.append(drv["err"])
    # ---- evidence
    proved = sum(sum(r["proved"].values()) for r in res)
    total = proved + sum(len(r["failed"]) + len(r["unknown"]) for r in res) + sum(1 for r in res if r["status"] in ("undecided", "unsupported", "error"))
    by = {}
    kinds = {}
    for r in res:
        for k, v in r["proved"].items(): by[k] = by.get(k, 0) + v
        for k, v in r["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
    fns = sorted({f for r in res for f in r["fns"]})
    contracts = sorted({f for r in res for f in r["contracts"]} - {"bpak_printf"})
    models = sorted({f for r in res for f in r["models"]})
    inv = {k: v for r in res for k, v in r["loops"].items()}
    info = getattr(C, "CONTRACT_INFO", {}) if C else {}
    try:
        import spec; info = dict(spec.CONTRACT_INFO, **info)
    except Exception: pass
    assumed = ["%s: %s" % (c, info.get(c, "assumed contract")) for c in contracts] + ["libc %s (engine/models.py)" % m for m in models]
    notes = sorted({a for r in res for a in r["assumptions"]})
    covers = [(r["unit"], d, s) for r in res for d, s in r["covers"]]
    ev = {"property": pid, "tier": "quick" if quick else "thorough", "seed": seed, "level": "proof", "wall_s": 0.0,
          "coverage": {
              "obligations": total, "discharged": proved, "checker_cmd": "./check %s %s" % (pid, tier), "trusted_base": TRUST + assumed,
              "obligation_kinds": kinds, "discharged_by": by, "solver_s": round(sum(r["solver_time"] for r in res), 2),
              "units": len(res), "units_proved": sum(r["status"] == "proved" for r in res), "units_only_in_thorough": skipped if quick else 0,
              "unit_status": [{"unit": r["unit"], "status": r["status"], "wall_s": round(r.get("wall", 0), 1)} for r in sorted(res, key=lambda r: -r.get("wall", 0))[:40]],
              "functions_verified": fns, "callees_by_contract": assumed, "loops": inv,
              "covers_reached": sum(s == "sat" for _, _, s in covers), "covers": len(covers),
              "not_proved": [{"unit": r["unit"], "why": r["status"], "detail": str(r.get("error", ""))[-400:]} for r in undec][:20],
              "explanation": "obligations generated from /repo's current sources by symbolic execution of the LLVM IR of the named functions and discharged by SMT; loops completely unrolled over fixed table sizes or cut by inductive invariants",
              "native_bounded": nat},
          "assumptions": assumed + notes + note, "violations": 0}
    rc = 0
    lines = []
    kn = known(pid)
    def matched(txt):
        for key, t in kn:
            if key in txt: return t
        return None
    viol = []
    if natfail is not None:
        k = matched(natfail["what"])
        if k: lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
        else: viol.append({"kind": "native", "failing_input": natfail, "failed_obligations": [dict(d, unit=r["unit"]) for r, d in failed][:10]})
    new = []
    for r, d in failed:
        k = matched("%s %s %s" % (r["unit"], d["desc"], d["where"]))
        if k: lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
        else: new.append((r, d))
    if new and not viol:
        viol.append({"kind": "obligation", "failed_obligations": [dict(d, unit=r["unit"]) for r, d in new][:20], "native": nat})
    for l in sorted(set(lines)): print(l)
    if viol:
        rp = os.path.join(ROOT, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, "%s.json" % pid)
        v = viol[0]
        v["property"] = pid
        if v["kind"] == "native":
            v["how_to_replay"] = "python3-vt engine/replay.py %s %d %d   (rebuilds /repo with sanitizers and runs exactly this case)" % (pid, natfail["seed"], natfail["case"])
        with open(path, "w") as f: json.dump(v, f, indent=1)
        if v["kind"] == "native":
            print("failing input: " + natfail["what"])
            for r, d in new[:5]: print("failed obligation: [%s] %s: %s @ %s" % (r["unit"], d["kind"], d["desc"], d["where"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            for r, d in new[:8]: print("failed obligation: [%s] %s: %s @ %s" % (r["unit"], d["kind"], d["desc"], d["where"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc = 1
        ev["violations"] = 1
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s: units %d/%d proved, obligations %d/%d discharged, native cases %s, %.1fs" % (
        pid, tier, ev["coverage"]["units_proved"], len(res), proved, total, nat.get("cases", 0), time.time() - t0))
    for r in undec[:10]: print("  undecided: [%s] %s %s" % (r["unit"], r["status"], str(r.get("error", ""))[-200:].replace("\n", " ")))
    for n in note: print("  note: " + n[:300])
    return rc

if __name__ == "__main__":
    rc = 0
    try: rc = main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); rc = 0
    finally: shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
