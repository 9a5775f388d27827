#!/bin/bash
# trybugs.sh ID ...: the check of each planted bug's property against /repo with the bug applied
for b in "$@"; do
  p=$(python3 -c "import json; print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || continue
  echo "$b $p: $(cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt -W ignore check.py $p 2>&1 | grep -v '^note' | tail -1 | cut -c1-200)"
  git -C /repo checkout -q -- .
done
