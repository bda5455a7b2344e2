#!/bin/bash
# run the claimed check of each planted bug on a scratch copy; prints id property exit code
for d in ${@:-/verif/seeded/*}; do
  [ -d "$d" ] || d=/verif/seeded/$d
  b=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(mktemp -d /tmp/seedXXXX); cp -a /repo/. $s/; git -C $s apply $d/patch.diff || echo "$b does not apply"
  t0=$(date +%s)
  o=$(python3 /verif/check.py $p --repo $s --no-evidence 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$o" | grep -c VIOLATION)"
  rm -rf "$s"
done
