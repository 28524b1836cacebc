#!/bin/bash
# builds the extractor and the harness; each check rebuilds what has changed (or everything, when nothing is there)
cd "$(dirname "$0")" && exec python3 - <<'P'
import check
check.build_extractor()
b, why = check.build_harness()
print(b or why)
P
