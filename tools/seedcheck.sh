#!/bin/bash
# seedcheck.sh ID...: run the check of the property each planted change breaks, with the change applied to /repo.
cd /verif
for s in "$@"; do
  git -C /repo apply /verif/seeded/$s/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  echo "== $s $p"; VERIF_SEED=${VERIF_SEED:-1} python3 check.py $p | grep -v " proved  "
  git -C /repo checkout -q -- .
done
