#!/bin/bash
# runseeds.sh [id...]: runs the owning check on a scratch copy with each planted bug applied
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  rm -rf /tmp/rs_$i; cp -a /repo /tmp/rs_$i
  if ! git -C /tmp/rs_$i apply /verif/seeded/$i/patch.diff 2>/dev/null; then echo "$i $p DOES-NOT-APPLY"; rm -rf /tmp/rs_$i; continue; fi
  out=$(python3 check.py $p --repo /tmp/rs_$i 2>&1); rc=$?
  v=$(echo "$out" | grep -c ^VIOLATION); nf=$(echo "$out" | grep -c no-failing-input)
  echo "$i $p rc=$rc violations=$v nfif=$nf $(echo "$out" | grep "$p quick" | tail -1 | sed 's/.*runs, //')"
  rm -rf /tmp/rs_$i
done
