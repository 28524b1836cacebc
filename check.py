#!/usr/bin/env python3
"""check.py <property>: decides one property of properties.jsonl on /repo's current tree.

1. The functions the property depends on are extracted mechanically from /repo (extract/), joined with their
   contracts (verus/cNN*.vrs) and given to Verus, which has to discharge every obligation.
2. The real crate is built from /repo and driven against an independent oracle (harness/): it replays failed
   obligations on the real code, i.e. it searches for a failing input.

Exit 0: every obligation of the functions within reach discharged and no failing input found.
Exit 1: `VIOLATION property=<id> replay=<path>`: a failing input, or a failed obligation (then the line ends
with the words no-failing-input-found).
"""
import concurrent.futures
import signal, sys, os, json, subprocess, time, hashlib, re, shutil, resource, struct
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
from props_cfg import CFG

ENV = dict(os.environ)
ENV.update(HOME="/root", PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""), CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)


def run(cmd, **kw):
    kw.setdefault("env", ENV)
    timeout = kw.pop("timeout", None)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)  # with the solvers it started
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def log(*a):
    print("#", *a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for base in ("src", "stl", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            fs.append(p)
        for d, ds, names in os.walk(p):
            ds.sort()
            fs += [os.path.join(d, n) for n in sorted(names)]
    for f in fs:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


# ---------------------------------------------------------------- builds
def build_extractor():
    r = run(["cargo", "build", "--release", "--offline", "-q"], cwd=f"{V}/extract")
    if r.returncode != 0:
        raise RuntimeError("extractor build failed: " + r.stderr[-2000:])
    return f"{V}/extract/target/release/vextract"


def build_harness():
    """The harness binary built against /repo's current tree, or (None, why)."""
    d = f"{V}/harness"
    cmd = ["cargo", "build", "--offline", "-q"]
    manifest = f"{d}/Cargo.toml"
    stamp = f"{d}/target/repo.hash"
    th = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != th and os.path.isdir(f"{d}/target/debug"):
        # cargo decides by modification times, which a copied tree need not reflect
        run(["cargo", "clean", "--offline", "-p", "strict_types"], cwd=d)
        run(["cargo", "clean", "--offline", "-p", "harness"], cwd=d)
    r = run(cmd, cwd=d)
    if r.returncode != 0:
        return None, r.stderr[-6000:]
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    open(stamp, "w").write(th)
    return f"{d}/target/debug/harness", ""


# ---------------------------------------------------------------- verus
# messages of obligations that the solver could not discharge
OBLIGATION = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|"
                        r"possible arithmetic (underflow/)?overflow|possible division by zero|decreases not satisfied|"
                        r"termination|loop ensures not satisfied|cannot (prove|show)|unreachable|failed to (prove|satisfy)|"
                        r"possible bit shift|recommendation not met|split postcondition|could not prove", re.I)
LIMIT = re.compile(r"resource limit|rlimit|timed? ?out", re.I)


OPEN = json.load(open(f"{V}/verus/open.json"))


def extract(ex, unit, work, trust, probe=False, suffix=""):
    rs, js = f"{work}/{unit}{suffix}.rs", f"{work}/{unit}{suffix}.json"
    cmd = [ex, REPO, f"{unit}.vrs", rs, js] + (["--probe"] if probe else []) + sorted(trust)
    r = run(cmd, cwd=f"{V}/verus")
    if r.returncode == 0:
        return rs, json.load(open(js)), None
    if r.returncode == 3:
        try:
            return None, None, json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            pass
    return None, None, {"lost": (r.stderr or r.stdout)[-1500:], "fn": None}


# the verifier gets this much of a run; what it did not decide by then counts as out of its reach
DEADLINE = time.time() + 420


def verus(rs, extra=()):
    cmd = ["verus", "--triggers-mode", "silent", rs, "--output-json", "--time-expanded", "--error-format=json", *extra]
    try:
        r = run(cmd, timeout=max(30, min(240, DEADLINE - time.time())))
    except subprocess.TimeoutExpired:
        return {}, [{"level": "error", "message": "verifier timed out", "spans": []}], cmd
    diags = []
    for l in r.stderr.splitlines():
        try:
            diags.append(json.loads(l))
        except Exception:
            pass
    try:
        out = json.loads(r.stdout)
    except Exception:
        out = {}
    return out, [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting due to")], cmd


def fn_of(meta, d):
    """The extracted function a diagnostic lies in (primary spans first)."""
    spans = d.get("spans", [])
    for s in sorted(spans, key=lambda s: not s.get("is_primary")):
        for f in meta["functions"]:
            if f["gen_start"] <= s["line_start"] <= f["gen_end"]:
                return f
    return None


def decide_unit(ex, unit, work):
    """Extract and verify one unit; functions that left the verifier's reach are trusted and reported."""
    trust, lost = {}, []
    for attempt in range(40):
        if time.time() > DEADLINE:
            return dict(unit=unit, degraded="the verifier ran out of time", trust=trust)
        rs, meta, err = extract(ex, unit, work, trust)
        if err:
            if err.get("fn") and err["fn"] not in trust:
                trust[err["fn"]] = err["lost"]
                continue
            return dict(unit=unit, degraded=err["lost"], trust=trust)
        out, errs, cmd = verus(rs)
        vr = out.get("verification-results") or {}
        hard = [d for d in errs if not OBLIGATION.search(d["message"]) or LIMIT.search(d["message"])]
        compiled = vr and not vr.get("encountered-vir-error") and "verified" in vr and (vr["verified"] + vr["errors"] > 0)
        if compiled:
            hard = [d for d in hard if LIMIT.search(d["message"])]
        if hard:
            new = {}
            for d in hard:
                f = fn_of(meta, d)
                if f and f["path"] not in trust:
                    new[f["path"]] = d["message"]
            if not new:
                return dict(unit=unit, degraded=hard[0].get("rendered") or hard[0]["message"], trust=trust)
            trust.update(new)
            continue
        if not compiled:
            return dict(unit=unit, degraded="no verification result: " + json.dumps(errs)[:1000], trust=trust)
        # a closure or loop without a contract says nothing: what fails in a function that has more of these
        # than the one the contracts were written for is out of reach, not refuted
        new = {}
        for d in errs:
            f = fn_of(meta, d)
            if f and f["path"] not in trust and f.get("open", 0) > OPEN.get(unit, {}).get(f["path"], 0):
                new[f["path"]] = "a closure or loop without a contract"
        if new:
            trust.update(new)
            continue
        fb = []
        smt = out.get("times-ms", {}).get("smt", {})
        for m in smt.get("smt-run-module-times", []):
            fb += m.get("function-breakdown", [])
        failed = []
        for d in errs:
            f = fn_of(meta, d)
            failed.append(dict(function=f["path"] if f else None, file=f["file"] if f else None, line=f["line"] if f else None,
                               obligation=d["message"], rendered=d.get("rendered", "")))
        return dict(unit=unit, trust=trust, meta=meta, verified=vr["verified"], errors=vr["errors"], failed=failed,
                    smt_ms=smt.get("smt-run", 0), total_ms=out.get("times-ms", {}).get("total", 0), breakdown=fb, rs=rs,
                    cmd=" ".join(cmd).replace(work, "<work>"))
    return dict(unit=unit, degraded="no fixpoint", trust=trust)


def vacuity(ex, unit, work, trust):
    """Every function must be able to fail: with `assert(false)` put at its start none may verify."""
    rs, meta, err = extract(ex, unit, work, trust, probe=True, suffix="_probe")
    if err:
        return None
    out, errs, _ = verus(rs)
    hit = set()
    for d in errs:
        f = fn_of(meta, d)
        if f:
            hit.add(f["path"])
    want = [f["path"] for f in meta["functions"] if f.get("probed")]
    return dict(probed=len(want), vacuous=[p for p in want if p not in hit])


def scan_trust(rs):
    t = open(rs).read()
    n = lambda rx: len(re.findall(rx, t))
    names = re.findall(r"external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:uninterp )?(?:fn|struct)\s+(\w+)", t)
    return dict(external_body=n(r"verifier::external_body"), assume_specification=n(r"assume_specification"), admit=n(r"\badmit\("),
                assume=n(r"\bassume\("), uninterp=n(r"\buninterp\b"), axioms=sorted(set(re.findall(r"(?:axiom|proof) fn (axiom_\w+)", t))), trusted_names=sorted(set(names)))


# ---------------------------------------------------------------- harness
def known(prop):
    out = []
    for l in open(f"{V}/known_findings.txt"):
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3)))
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def harness(binary, prop, work, seeds, secs, only=None):
    kf = f"{work}/known.keys"
    open(kf, "w").write("".join(k + "\n" for k, _ in known(prop)))
    ps = []
    for s in seeds:
        prog = f"{work}/progress.{s}"
        cmd = [binary, prop, "--seed", str(s), "--secs", str(secs), "--known", kf, "--progress", prog]
        if only is not None:
            cmd += ["--only", str(only)]
        out = open(f"{work}/harness.{s}.out", "w+")
        err = open(f"{work}/harness.{s}.err", "w+")
        ps.append((s, prog, out, err, subprocess.Popen(cmd, stdout=out, stderr=err, env=ENV, preexec_fn=limits, cwd=work)))
    res = []
    for s, prog, out, err, p in ps:
        try:
            rc = p.wait(timeout=secs + 260)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        out.seek(0), err.seek(0)
        o, e = out.read(), err.read()
        lines = [l for l in o.splitlines() if l.startswith('{"property"')]
        if lines:
            res.append(json.loads(lines[-1]))
            continue
        case = None
        if os.path.exists(prog):
            b = open(prog, "rb").read(8)
            case = struct.unpack("<Q", b)[0] if len(b) == 8 else None
        res.append(dict(seed=s, cases=case or 0, secs=secs, cover={}, samples=[], known=[], failures=[dict(
            case=case, key="crash", what=f"the process running the code ended with {rc}: {e[-1500:]}", input="")]))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    cfg = CFG[prop]
    t0 = time.time()
    work = f"{V}/work/{prop}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep = f"{V}/replay"
    os.makedirs(rep, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    replay = f"{rep}/{prop}.json"
    if os.path.exists(replay):
        os.remove(replay)

    ex = build_extractor()
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        units = list(pool.map(lambda u: decide_unit(ex, u, work), cfg["units"]))
    for u in units:
        if "degraded" not in u:
            u["vac"] = vacuity(ex, u["unit"], work, u["trust"]) if time.time() < DEADLINE and not os.environ.get("VERIF_NO_PROBE") else None
            u["scan"] = scan_trust(u["rs"])
    binary, why = build_harness()
    hres = []
    if binary:
        hres = harness(binary, prop, work, [seed * 100 + i for i in range(cfg.get("procs", 6))], cfg["secs"] if tier == "quick" else cfg.get("secs_thorough", 300))
    fails = [(r, f) for r in hres for f in r["failures"]]
    failed = [dict(f, unit=u["unit"]) for u in units for f in u.get("failed", [])]
    out = any(u.get("trust") or "degraded" in u for u in units)
    if (failed or out) and not fails and binary and tier == "quick":
        more = harness(binary, prop, work, [seed * 100 + 50 + i for i in range(8)], int(os.environ.get("VERIF_MORE_SECS", "60")))
        hres += more
        fails = [(r, f) for r in more for f in r["failures"]]

    # ------------------------------------------------------------ evidence
    obligations = sum(u.get("verified", 0) + u.get("errors", 0) for u in units)
    discharged = sum(u.get("verified", 0) for u in units)
    funcs, lostf, trusted_base, degraded, scans = [], [], [], [], []
    for u in units:
        for p, m in u["trust"].items():
            lostf.append(f"{p} ({u['unit']}): {m[:300]}")
        if "degraded" in u:
            degraded.append(f"{u['unit']}: {u['degraded'][:800]}")
            continue
        for f in u["meta"]["functions"]:
            if f["path"] not in u["trust"] and not f.get("trusted"):
                e = dict(function=f["path"], signature_subst=f.get("sigsub", []), at=f"{f['file']}:{f['line']}-{f['line_end']}", loops=f["loops"], rules=f["rules"], subst=f["subst"], src_hash=f["src_hash"])
                if not any(x["function"] == e["function"] and x["at"] == e["at"] for x in funcs):
                    funcs.append(e)
        s = u["scan"]
        scans.append(dict(unit=u["unit"], **s))
    trusted_base = list(cfg.get("trusted", []))
    trusted_base += ["the extraction (extract/src/main.rs): rewrites listed per function under functions_under_contract.rules/subst",
                     "Verus 0.2026.09.13, its Z3, rustc"]
    covers = {}
    for r in hres:
        for k, n in r["cover"].items():
            covers[k] = covers.get(k, 0) + n
    samples = [s for r in hres for s in r.get("samples", [])][:4]
    knownhits = {}
    for r in hres:
        for k in r["known"]:
            knownhits[k["key"]] = knownhits.get(k["key"], 0) + k["count"]
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], wall_s=0, violations=0,
              assumptions=cfg.get("assumptions", []),
              coverage=dict(
                  obligations=obligations, discharged=discharged,
                  checker_cmd="; ".join(u.get("cmd", f"verus {u['unit']}.rs (not run: outside reach)") for u in units) or "none",
                  trusted_base=trusted_base,
                  back_end="Verus (Z3)", solver_ms=sum(u.get("smt_ms", 0) for u in units),
                  verifier_ms=sum(u.get("total_ms", 0) for u in units),
                  functions_under_contract=funcs,
                  functions_out_of_reach_on_this_tree=lostf, units_out_of_reach_on_this_tree=degraded,
                  trust_scan=scans,
                  slowest=sorted([(b["time-micros"], b["function"]) for u in units for b in u.get("breakdown", [])], reverse=True)[:5],
                  vacuity_probes=[dict(unit=u["unit"], **(u["vac"] or {"probed": 0, "vacuous": []})) for u in units if "vac" in u],
                  bounded_replay=dict(label="bounded, not counted as proved: the real crate against an independent oracle on generated inputs",
                                      evaluations=sum(r["cases"] for r in hres), reached=covers, samples=samples, built=bool(binary)),
                  evaluations=sum(r["cases"] for r in hres), distinct_nontrivial=sum(r.get("distinct", 0) for r in hres),
                  rule=cfg.get("rule", "random inputs (seeded) built from the shapes the property ranges over, judged by an oracle written independently of the code; distinct_nontrivial: distinct last inputs of cases that reached a counted shape (bounded_replay.reached), per process"),
                  samples=samples, known_findings_seen=knownhits))

    rc = 0
    lines = []
    for k, txt in known(prop):
        lines.append(f"KNOWN-FINDING: property={prop} {txt}" + (f" [seen {knownhits[k]} times in this run]" if k in knownhits else ""))
    if fails:
        r, f = fails[0]
        rec = dict(property=prop, kind="failing input on the real code", case=f["case"], seed=r["seed"], key=f["key"], what=f["what"], input=f["input"],
                   replay_cmd=f"cd {V} && ./check.py {prop} --replay {r['seed']} {f['case']}", other_failures=[dict(x[1], seed=x[0]["seed"]) for x in fails[1:8]],
                   failed_obligations=failed, functions_out_of_reach=lostf, units_out_of_reach=degraded)
        json.dump(rec, open(replay, "w"), indent=1)
        lines.append(f"# {f['key']}: {f['what'][:600]}")
        lines.append(f"VIOLATION property={prop} replay={replay}")
        rc = 1
    elif failed:
        rec = dict(property=prop, kind="failed obligation, no failing input found", failed_obligations=failed,
                   searched=sum(r["cases"] for r in hres))
        json.dump(rec, open(replay, "w"), indent=1)
        lines.append(f"# obligation of {failed[0]['function']}: {failed[0]['obligation']}")
        lines.append(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
        rc = 1
    elif not binary and (degraded or not units):
        lines.append("# neither the proof nor the real code could be run: " + (degraded[0] if degraded else "") + why[-1500:])
        rc = 2
    ev["violations"] = len(fails) + len(failed) if rc == 1 else 0
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop}: {discharged}/{obligations} obligations discharged over {len(funcs)} functions of /repo, {sum(u.get('smt_ms', 0) for u in units)} ms solver;",
        f"{sum(r['cases'] for r in hres)} executions of the real code; {ev['wall_s']} s")
    for x in lostf:
        log("outside the verifier's reach on this tree:", x.replace("\n", " ")[:400])
    for x in degraded:
        log("unit outside the verifier's reach on this tree:", x.replace("\n", " ")[:600])
    vac = [v for u in units if u.get("vac") for v in u["vac"]["vacuous"]]
    if vac:
        log("vacuous contracts:", vac)
        if rc == 0 and not lostf and not degraded:
            rc = 2
    for l in lines:
        print(l, flush=True)
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay")
        b, why = build_harness()
        if not b:
            print(why)
            sys.exit(2)
        w = f"{V}/work/replay"
        os.makedirs(w, exist_ok=True)
        r = harness(b, sys.argv[1], w, [int(sys.argv[i + 1])], 30, only=int(sys.argv[i + 2]))
        print(json.dumps(r, indent=1))
        sys.exit(1 if r[0]["failures"] else 0)
    main()
