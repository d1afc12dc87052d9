#!/bin/bash
# tools/try.sh PATCH CHECK...   applies a patch to /repo, runs the checks, undoes it
p=$(readlink -f "$1"); shift
cd /verif
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
git -C /repo apply "$p" || exit 9
for c in "$@"; do timeout 900 python3 check.py "$c" 2>&1 | cut -c1-${W:-600} | head -${N:-3}; echo "-- $c rc=${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
