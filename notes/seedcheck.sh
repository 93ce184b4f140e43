#!/bin/bash
# dev aid: run the check of each seeded change against a copy of /repo with the change
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  rm -rf /tmp/sc_$id; cp -a /repo /tmp/sc_$id; git -C /tmp/sc_$id apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  VF_REPO=/tmp/sc_$id timeout 900 python3 bin/vfcheck.py $p > /tmp/sc_$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ' violation ' /tmp/sc_$id.log) jobs: $(grep ' violation ' /tmp/sc_$id.log | head -3 | awk '{print $1}' | tr '\n' ' ')"
  rm -rf /tmp/sc_$id
done
