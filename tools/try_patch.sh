#!/bin/bash
# try_patch.sh PATCH ID...   apply to /repo, run the checks, undo.
p=$(realpath "$1"); shift
git -C /repo apply "$p" || { echo "does not apply"; exit 2; }
for id in "$@"; do
  /verif/check.sh "$id" > /tmp/try_$id.log 2>&1; rc=$?
  echo "$id rc=$rc $(grep -m1 -E 'VIOLATION|TOOL' /tmp/try_$id.log) :: $(grep -m1 'violation:' /tmp/try_$id.log | cut -c1-200)"
done
git -C /repo checkout -- .
