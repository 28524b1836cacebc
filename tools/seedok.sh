#!/bin/bash
# seedok.sh ID: confirms in a scratch copy that the planted change builds, passes the tests, and that the demo tells.
S=/verif/seeded/$1
W=$(mktemp -d /tmp/seedok.XXXX)
cp -a /repo "$W/repo"
git -C "$W/repo" checkout -q -- . 
(cd "$W/repo" && bash "$S/demo.sh" >"$W/d0" 2>&1); a=$?
git -C "$W/repo" apply "$S/patch.diff" || { echo "$1: patch does not apply"; rm -rf "$W"; exit 1; }
(cd "$W/repo" && bash "$S/demo.sh" >"$W/d1" 2>&1); b=$?
t=$( (cd "$W/repo" && . /opt/vp/env.sh && cargo test --workspace --all-features --offline -- --test-threads 8) 2>&1 | grep -E "^test result|FAILED|error" | awk '/FAILED|error/{f++} /test result: ok/{p+=$4} END{print p+0, "passed", f+0, "failures"}')
echo "$1: demo unchanged=$a patched=$b; tests: $t"
tail -3 "$W/d1"; [ $a = 0 ] || tail -5 "$W/d0"
rm -rf "$W"
[ $a = 0 ] && [ $b != 0 ]
