#!/bin/bash
# seedcheck.sh ID...: applies the planted change to /repo, runs its property's check, undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  out=$(./check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id ($p): rc=$rc"; echo "$out" | grep -vE "^# C.*discharged" | cut -c1-300; echo "$out" | grep -E "discharged" 
  [ -f replay/$p.json ] && python3 - $p <<'D'
import json,sys
d=json.load(open(f'/verif/replay/{sys.argv[1]}.json'))
for f in d.get('failed_obligations',[]): print('   obligation:',f['function'],'|',f['obligation'],f['file'],f['line'])
D
done
