#!/bin/bash
# Developer tool: applies planted bugs to /repo one at a time, runs the check of their property, undoes them.
for i in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s); python3 /verif/check.py $p >/tmp/seedcheck.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s )) s: $(grep -c '^VIOLATION' /tmp/seedcheck.log) violations; $(grep -m1 -A1 '^VIOLATION' /tmp/seedcheck.log | tr '\n' ' ' | cut -c1-200)"
done
