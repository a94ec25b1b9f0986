#!/bin/bash
# trybug.sh ID...: runs the check of each planted bug's property (or CHECKS="P01 P02") on /repo with the bug applied
for id in "$@"; do
  P=${CHECKS:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for p in $P; do
    bash /verif/check.sh $p quick > /tmp/try.$id.$p 2>&1; echo "$id $p rc=$? $(grep -h VIOLATION /tmp/try.$id.$p | head -2 | tr '\n' ' ')"
  done
  git -C /repo checkout -q -- .
done
