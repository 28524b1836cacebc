#!/usr/bin/env python3
"""mutate.py SEED N OUT [--files f1,f2]: small mutants of /repo/src which pass the existing tests, and which checks
see them. Meant to be run through tools/iso.sh: it edits /repo and runs the checks of /verif."""
import sys, re, random, subprocess, json, os
REPO, V = "/repo", "/verif"
seed, n, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
only = sys.argv[sys.argv.index("--files") + 1].split(",") if "--files" in sys.argv else None
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
FILES = {}
for p in props:
    for f in (p.get("anchors") or {}).get("files", []):
        FILES.setdefault(f, []).append(p["id"])
extra = {"src/ast/ty.rs": ["C07", "C06", "C08", "C01", "C19", "C10"], "src/typesys/id.rs": ["C02"], "src/value/val.rs": ["C18", "C20"], "src/ast/translate.rs": ["C14", "C16", "C17"],
         "src/typesys/translate.rs": ["C03", "C17"], "src/typesys/type_sys.rs": ["C04", "C10", "C13"], "src/util.rs": ["C05"]}
for f, ps in extra.items():
    FILES[f] = ps + [p for p in FILES.get(f, []) if p not in ps]
SWAPS = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|(?= )", "&&"),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"),
         (r"\.min\b", ".max"), (r"\.max\b", ".min"), (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"saturating_add", "wrapping_add"), (r"saturating_sub", "wrapping_sub"),
         (r"\bu8\b", "u16"), (r"\bu16\b", "u8"), (r"\bu24\b", "u32"), (r"\bu32\b", "u16"), (r"\bu64\b", "u32"), (r"\bi64\b", "i32"), (r"\bU16\b", "U8"), (r"\bU24\b", "U16"), (r"\bU32\b", "U24"), (r"\bI16\b", "I8"), (r"\bI64\b", "I32"),
         (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"\+ 1\b", "+ 2"), (r"- 1\b", "- 2"), (r"!(?=[a-z])", ""),
         (r"if (?!let)(.*) \{$", r"if false {"), (r"if (?!let)(.*) \{$", r"if true {"), (r" if (.*) =>", r" if true =>"), (r"^(\s+)if (.*)$", r"\1if true"), (r"\bSome\((\w+)\)$", "None"),
         (r"\b_ => \{\}", "_ => return Ok(()),"), (r"\.ty\b", ".0"), (r"key_id", "id"), (r"key_ty", "ty"), (r"\bkey\b", "val"), (r"\.rev\(\)", ""), (r"\.cloned\(\)", ".cloned().take(1)"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().take(1)"), (r"\.into_iter\(\)", ".into_iter().skip(1)"),
         (r"sem_id_named\(\w+\)", "sem_id_unnamed()"), (r"sem_id_named\(&\w+\)", "sem_id_unnamed()"), (r"tag\b", "tag + 1"), (r"as usize\b", "as u8 as usize"), (r"as u64\b", "as u8 as u64"), (r"\.name\b", ".tag"), (r"Undersize", "Oversize"), (r"\bSet\b", "List"), (r"\bList\b", "Set"), (r"\bTuple\b", "List"),
         (r"\?;$", ";"), (r"continue;", "break;"), (r"continue;", ""), (r"break;", "continue;"), (r"return Err\(.*\);$", ";")]


def candidates(f):
    lines = open(f"{REPO}/{f}").read().split("\n")
    skip = depth = 0
    res = []
    infmt = False
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l and i + 1 < len(lines) and "mod " in lines[i + 1]:
            break
        s = l.strip()
        if re.match(r"(impl.*Display for|.*fn fmt\()", s):
            infmt = True
        if infmt:
            if l.startswith("}") or l.startswith("    }") and "fn fmt" not in l:
                infmt = False
            continue
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "*", "/*")) or "deprecated" in s or "Error" in s and "=>" not in s and "return" not in s and "if" not in s:
            continue
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                if "fn " in l and a.startswith(r"\b"):
                    continue
                k = l[:m.start()] + m.expand(b) + l[m.end():]
                if k != l:
                    res.append((i, k))
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "const", "type ", "}")) and s.count("(") == s.count(")"):
            res.append((i, "/* " + l + " */"))
        if re.match(r".*=> .*,$", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            res.append((i, ""))
    return res


def run(cmd, t):
    try:
        p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 99, "timeout"


STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def passes():
    run(f"bash /opt/vp/test.sh /tmp/mut.{os.getpid()}.json", 120)
    try:
        return STABLE <= set(json.load(open(f"/tmp/mut.{os.getpid()}.json")).get("passed", []))
    except Exception:
        return False


rng = random.Random(seed)
files = [f for f in FILES if os.path.exists(f"{REPO}/{f}") and (not only or f in only)]
cands = [(f, i, k) for f in files for i, k in candidates(f)]
# a line of each file at a time, so that long files do not get all of them
byline = {}
for f, i, k in cands:
    byline.setdefault((f, i), []).append(k)
keys = list(byline)
rng.shuffle(keys)
print(len(keys), "lines", flush=True)
done = 0
for f, i in keys:
    if done >= n:
        break
    k = rng.choice(byline[(f, i)])
    src = open(f"{REPO}/{f}").read()
    lines = src.split("\n")
    old = lines[i]
    lines[i] = k
    open(f"{REPO}/{f}", "w").write("\n".join(lines))
    try:
        rc, o = run("bash /opt/vp/build.sh", 240)
        if rc != 0:
            continue
        if not passes():
            continue
        done += 1
        rec = dict(file=f, line=i + 1, old=old.strip(), new=k.strip(), res={})
        for p in FILES[f]:
            rc, o = run(f"python3 {V}/check.py {p}", 900)
            kind = "nfif" if "no-failing-input-found" in o else "input" if rc == 1 else "quiet" if rc == 0 else f"rc{rc}"
            if "outside the verifier" in o:
                kind += "*"
            rec["res"][p] = kind
            rec.setdefault("msg", {})[p] = [l[:200] for l in o.splitlines() if l.startswith("# ")][-3:]
            if kind.startswith("input"):
                break
        open(out, "a").write(json.dumps(rec) + "\n")
        print(f"{f}:{i+1} {old.strip()[:70]!r} -> {k.strip()[:70]!r} {rec['res']}", flush=True)
    finally:
        open(f"{REPO}/{f}", "w").write(src)
