"""Native side: build the library from /repo with sanitizers, run a property's driver over seeded cases.
Used to turn a failed obligation into a failing input, and as the labelled bounded stand-in where a
function is outside the verifier's reach."""
import os, subprocess, sys, time, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
NAT = os.path.join(os.path.dirname(HERE), "native")
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = ["bpak.c", "bpakcrc.c", "id.c", "keystore.c", "mem.c", "utils.c", "bsdiff.c", "bspatch.c", "merkle.c", "pkg.c", "pkg_create.c",
       "pkg_sign.c", "pkg_verify.c", "sais.c", "transport_decode.c", "transport_encode.c", "verify.c", "heatshrink/heatshrink_decoder.c",
       "heatshrink/heatshrink_encoder.c", "crypto.c", "mbedtls_wrapper.c", "keystore_load_from_file.c"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,vptr,function", "-fno-sanitize-recover=all"]
WRAP = ["fread", "fwrite", "fseek", "ftell", "fopen", "ftruncate"]

def lib_sources():
    """the library's own list of sources when it can be read, so that a moved function is still found"""
    srcs = [os.path.join(REPO, "lib", x) for x in LIB if os.path.exists(os.path.join(REPO, "lib", x))]
    have = set(srcs)
    for d, _, fs in os.walk(os.path.join(REPO, "lib")):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".c") and p not in have: srcs.append(p)
    return srcs + [os.path.join(REPO, "ext/uuid", x) for x in ("unpack.c", "unparse.c")]

def build(build_dir, driver, extra=(), wraps=()):
    """-> path of the driver binary, or raises RuntimeError"""
    os.makedirs(build_dir, exist_ok=True)
    cfg = os.path.join(build_dir, "cfg", "bpak"); os.makedirs(cfg, exist_ok=True)
    with open(os.path.join(cfg, "build_config.h"), "w") as f:
        f.write("#ifndef BPAK_BUILD_CONFIG_H\n#define BPAK_BUILD_CONFIG_H\n#define BPAK_CONFIG_MERKLE 1\n#define BPAK_CONFIG_LZMA 1\n#define BPAK_CONFIG_MBEDTLS 1\n#endif\n")
    flags = ["-O1", "-g", "-w", "-std=gnu99", "-fno-omit-frame-pointer", "-I" + os.path.join(build_dir, "cfg"), "-I" + REPO + "/include", "-I" + REPO + "/lib",
             "-I" + REPO + "/ext/uuid", "-I" + NAT, "-DNATDIR=\"%s\"" % NAT]
    jobs = []
    for s in lib_sources() + [os.path.join(NAT, "vt.c"), os.path.join(NAT, driver + ".c")]:
        o = os.path.join(build_dir, s.replace("/", "_") + ".o")
        jobs.append((["clang"] + SAN + flags + list(extra) + ["-c", s, "-o", o], o))
    def one(j):
        r = subprocess.run(j[0], capture_output=True, text=True)
        return r.returncode, r.stderr
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, jobs))
    for (rc, err), j in zip(rs, jobs):
        if rc: raise RuntimeError("native build: " + err[:1500])
    out = os.path.join(build_dir, driver)
    wl = ["-Wl," + ",".join("--wrap=" + w for w in WRAP + list(wraps))]
    r = subprocess.run(["clang"] + SAN + [o for _, o in jobs] + wl + ["-o", out, "-lmbedcrypto", "-llzma"], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("native link: " + r.stderr[:1500])
    return out

def run(binary, seed, secs, jobs=8, start=0):
    """-> (failure or None, cases, nontrivial)"""
    ps = [subprocess.Popen([binary, str(seed), str(secs), str(start + k), str(jobs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL) for k in range(jobs)]
    fail = None; cases = nt = 0
    t_end = time.time() + secs + 60
    for k, p in enumerate(ps):
        try: out, err = p.communicate(timeout=max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate()
            continue
        out = out.decode(errors="replace"); err = err.decode(errors="replace")
        m = re.search(r"DONE cases=(\d+) nontrivial=(\d+)", out)
        if m: cases += int(m.group(1)); nt += int(m.group(2))
        f = re.search(r"FAIL seed=(\d+) case=(\d+): (.*)", out)
        if f and fail is None:
            fail = {"seed": int(f.group(1)), "case": int(f.group(2)), "what": f.group(3), "stdout": out[-6000:], "stderr": err[:6000]}
        elif p.returncode not in (0, None) and not m and fail is None:
            fail = {"seed": seed, "case": -1, "what": "driver stopped with status %d" % p.returncode, "stdout": out[-3000:], "stderr": err[:6000], "crash": True}
    return fail, cases, nt

def confirm(binary, seed, case):
    """replay one case alone"""
    try: r = subprocess.run([binary, str(seed), "-c", str(case)], capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired: return True, "no termination"
    o = r.stdout.decode(errors="replace")
    return ("FAIL" in o or r.returncode not in (0,)), o[-4000:] + r.stderr.decode(errors="replace")[:6000]

if __name__ == "__main__":
    drv = sys.argv[1]; secs = float(sys.argv[2]) if len(sys.argv) > 2 else 5
    import nativecfg; o = nativecfg.CFG.get(drv, {})
    b = build("/tmp/vt-build." + drv, drv, o.get("cflags", ()), o.get("wraps", ()))
    f, c, n = run(b, int(os.environ.get("VERIF_SEED", "1")), secs)
    print("cases", c, "nontrivial", n)
    if f: print(f["stdout"]); print(f["stderr"][:3000])
