#!/bin/bash
# Developer tool: like seedcheck.sh, but on the scratch copy /tmp/sd/repo with a scratch copy of
# /verif (/tmp/vv), so that /repo stays untouched.
mkdir -p /tmp/vv
rsync -a --exclude target --exclude seeded --exclude .git --exclude evidence /verif/ /tmp/vv/
mkdir -p /tmp/vv/evidence
sed -i 's#"/repo/#"/tmp/sd/repo/#' /tmp/vv/harness/Cargo.toml
sed -i 's#/repo/pasture-io#/tmp/sd/repo/pasture-io#' /tmp/vv/harness/src/bin/c2[45].rs
R=/tmp/sd/repo
for i in "$@"; do
  git -C $R checkout -q -- .
  if [ "${i:0:1}" = C ] && [ ${#i} = 3 ]; then p=$i; else
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C $R apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }; fi
  s=$(date +%s); python3 /tmp/vv/check.py $p >/tmp/vv/log 2>&1; rc=$?
  git -C $R checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s )) s: $(grep -c '^VIOLATION' /tmp/vv/log) violations; $(grep -m1 -A1 '^VIOLATION' /tmp/vv/log | tr '\n' ' ' | cut -c1-200)"
  [ $rc -gt 1 ] && tail -5 /tmp/vv/log
done
