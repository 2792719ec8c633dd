#!/bin/bash
# runs each planted bug's check on /repo with the bug applied; prints what the check says
for d in /verif/seeded/*; do i=$(basename $d); [[ $i =~ ${1:-.} ]] || continue; p=${i%%-*}
git -C /repo apply $d/patch.diff || continue
s=$(date +%s); out=$(cd /verif && python3-vt check.py $p 2>&1); rc=$?; git -C /repo checkout -q -- .
echo "== $i rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c VIOLATION) / $(echo "$out" | grep VIOLATION | grep -vc no-failing)"; echo "$out" | grep VIOLATION | head -2 | cut -c1-200; done
