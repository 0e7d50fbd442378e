#!/bin/bash
# tools/trial.sh ID...: apply each seeded change to a scratch copy and run its property's check there
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /tmp/seedw checkout -q -- . && git -C /tmp/seedw apply /verif/seeded/$id/patch.diff || { echo "$id: patch"; continue; }
  (cd /verif; VC_REPO=/tmp/seedw python3-vt vc/run.py $p > /tmp/trial.out; echo "$id rc $?: $(tail -1 /tmp/trial.out | cut -c1-150)"; grep -c "failed:" /tmp/trial.out)
  git -C /tmp/seedw checkout -q -- .
done
