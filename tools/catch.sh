#!/bin/bash
# catch.sh ID...: which planted bugs does the check of their property (or the
# check given by CHECK) report? (Not used by any check.)
for id in "$@"; do
  prop=${CHECK:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  out=$(cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick ./check $prop 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | tail -1)"
done
