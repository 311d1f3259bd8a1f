#!/bin/bash
# tools/try_patch.sh PATCH ID...   applies a patch to /repo, runs the checks, undoes it
p=$(readlink -f "$1"); shift
git -C /repo apply "$p" || { echo "does not apply"; exit 9; }
for id in "$@"; do
  timeout 900 python3 /verif/check.py "$id" > /tmp/try.$id.log 2>&1; rc=$?
  echo "$id rc=$rc $(grep -m1 -E '^(monitor|crash|Addr|miri|config|no term|NO VERDICT)' /tmp/try.$id.log | cut -c1-260)"
done
git -C /repo checkout -- .
