#!/bin/bash
# quiet.sh DIR [NAME...]: applies DIR/NAME.diff (an edit which changes no behaviour) to /repo, runs the checks listed
# in DIR/NAME.props and reverts; they have to stay quiet. Meant to be run through tools/iso.sh.
D=$1; shift; [ $# = 0 ] && set -- $(cd $D; ls *.diff | sed 's/.diff$//')
for n in "$@"; do
  git -C /repo apply $D/$n.diff || { echo "== $n: does not apply"; continue; }
  if ! bash /opt/vp/build.sh >/tmp/quiet.build 2>&1; then echo "== $n: does not build"; tail -20 /tmp/quiet.build; git -C /repo checkout -q -- .; continue; fi
  for p in $(cat $D/$n.props); do
    python3 /verif/check.py $p > /tmp/quiet.out 2>&1; rc=$?
    echo "== $n $p rc=$rc $(grep -o 'no-failing-input-found' /tmp/quiet.out | head -1)"
    grep -E "^# (outside|unit|oblig)|^VIOL|^# [a-z-]*:" /tmp/quiet.out | cut -c1-330
    [ $rc != 0 ] && python3 - <<PY
import json
try:
    d=json.load(open('/verif/replay/$p.json'))
    for f in d.get('failed_obligations',[])[:4]: print('   ',f['function'],f['obligation'],(f['rendered'].splitlines()+['','','',''])[1:9])
except Exception as e: print(e)
PY
  done
  git -C /repo checkout -q -- .
done
