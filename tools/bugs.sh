#!/bin/bash
# bugs.sh suite ID...  apply all, run the stable suite once; bugs.sh check ID... run each bug's check
mode=$1; shift; cd /repo
if [ $mode = suite ]; then
  for b in "$@"; do git apply /verif/seeded/$b/patch.diff || echo "apply failed $b"; done
  bash /opt/vp/test.sh /tmp/bugsuite.json >/tmp/bugsuite.log 2>&1; git checkout -- .
  python3 /verif/tools/stable.py /tmp/bugsuite.json | head -c 3000
else
  for b in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
    git apply /verif/seeded/$b/patch.diff || { echo "apply failed $b"; continue; }
    o=$(cd /verif; ./run.sh $p --seed ${SEED:-1} 2>&1); rc=$?
    git checkout -- .
    echo "$b $p rc=$rc $(echo "$o" | grep -c "^VIOLATION property=$p") | $(echo "$o" | grep -E "^  [a-z_0-9]+: " | head -2 | cut -c1-160)"
  done
fi
