#!/bin/bash
# run.sh ids...: run the property's quick check against each seeded bug (in /repo)
for id in "$@"; do
  p=/verif/seeded/$id/patch.diff
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply $p || { echo "$id cannot apply"; continue; }
  s=$(date +%s)
  (cd /verif && ./run.sh $prop quick -noevidence) > /tmp/seed/$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep -c ^VIOLATION /tmp/seed/$id.log) $(grep -A1 ^VIOLATION /tmp/seed/$id.log | sed -n 2p | cut -c1-110)"
done
rm -rf /verif/replays/*
