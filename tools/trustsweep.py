#!/usr/bin/env python3
"""trustsweep.py UNIT...: trusts one function after the other and verifies the rest: nothing else may fail."""
import sys, subprocess, json, os, re
from concurrent.futures import ThreadPoolExecutor
V = "/verif/verus"; EX = "/verif/extract/target/release/vextract"
os.makedirs("/tmp/ts", exist_ok=True)
def one(a):
    u, i, fn = a
    rs, js = f"/tmp/ts/{u}_{i}.rs", f"/tmp/ts/{u}_{i}.json"
    r = subprocess.run([EX, "/repo", f"{u}.vrs", rs, js, fn], cwd=V, capture_output=True, text=True)
    if r.returncode: return u, fn, "extract: " + r.stdout[-200:] + r.stderr[-200:]
    r = subprocess.run(["verus", "--triggers-mode", "silent", rs], capture_output=True, text=True)
    m = re.search(r"(\d+) verified, (\d+) errors", r.stdout)
    if m and m.group(2) == "0": return u, fn, None
    return u, fn, (m.group(0) if m else "") + r.stderr[:800]
for u in sys.argv[1:]:
    r = subprocess.run([EX, "/repo", f"{u}.vrs", f"/tmp/ts/{u}.rs", f"/tmp/ts/{u}.json"], cwd=V, capture_output=True, text=True)
    fns = [f["path"] for f in json.load(open(f"/tmp/ts/{u}.json"))["functions"]]
    with ThreadPoolExecutor(4) as p:
        for u_, fn, e in p.map(one, [(u, i, f) for i, f in enumerate(fns)]):
            if e: print(u_, fn, e)
    print(u, len(fns), "swept", flush=True)
