#!/usr/bin/env python3
"""newseed.py FILE.py: FILE.py defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, MAIN (rust main.rs).
Plants the change in a scratch copy, writes /verif/seeded/ID and confirms it there."""
import sys, subprocess, os, shutil, tempfile
g = {}
exec(open(sys.argv[1]).read(), g)
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
subprocess.run(["git", "clone", "-q", "/repo", w + "/repo"], check=True)
for f, old, new in g["EDITS"]:
    p = f"{w}/repo/{f}"
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, "w").write(s.replace(old, new))
os.makedirs("/tmp/seed", exist_ok=True)
if os.path.exists("/tmp/seed/repo"): shutil.rmtree("/tmp/seed/repo")
shutil.move(w + "/repo", "/tmp/seed/repo"); shutil.rmtree(w)
open("/tmp/seed/main.rs", "w").write(g["MAIN"])
env = dict(os.environ, NEEDS=g["NEEDS"], BREAKS=g["BREAKS"])
r = subprocess.run(["bash", "/verif/tools/newseed.sh", g["ID"], g["PROP"]], env=env)
shutil.rmtree("/tmp/seed/repo")
sys.exit(r.returncode)
