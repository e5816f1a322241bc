#!/bin/bash
# try_patch.sh PATCH ID...: applies a patch to /repo, runs the checks, undoes it.
p=$(realpath "$1"); shift
git -C /repo apply "$p" || exit 3
for i in "$@"; do
    out=$(VERIF_TIER=quick VERIF_SEED=${VERIF_SEED:-1} timeout 900 /verif/run.sh $i 2>&1); rc=$?
    echo "$i rc=$rc $(echo "$out" | grep -a -m1 -E 'fails|VIOLATION|error|ok,' | cut -c1-300)"
done
git -C /repo checkout -- .
