#!/bin/bash
# tools/run_seeds.sh [ID...]   runs the check of its property against each planted bug
cd /verif/seeded || exit 1
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t=$SECONDS; r=$(/verif/tools/try_patch.sh $s/patch.diff $p); echo "$s $r $((SECONDS-t))s"
done
