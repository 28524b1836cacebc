#!/usr/bin/env python3
"""Writes MANIFEST.json from props_cfg.py and properties.jsonl."""
import json
from props_cfg import CFG, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in CFG:
        c = CFG[i]
        checks.append(dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i} --tier thorough",
                           technique=c.get("technique", "contract-based deductive verification: Verus on functions extracted from /repo on every run; failed obligations replayed on the real crate"),
                           level=c["level"], level_note=c.get("note", "")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: private items are reached by the extractor, not by the build. /repo carries only fix: commits.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
