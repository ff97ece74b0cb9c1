#!/bin/bash
# revertcheck.sh COMMIT CHECK: undo a fix in /repo's working tree, run the check, restore
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 2; }
git revert -n "$1" >/dev/null 2>&1; r=$?
git revert --quit 2>/dev/null
if [ $r != 0 ]; then git reset -q --hard HEAD; echo "$1 conflicts"; exit 3; fi
(cd /verif && ./run.sh "$2" quick 2>&1 | tail -4)
git reset -q --hard HEAD
