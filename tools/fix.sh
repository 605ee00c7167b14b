#!/bin/bash
# fix.sh PROP "fix: subject" [files...]   commits the modified files (default all) in /repo and records it
p=$1; m=$2; shift 2
if [ $# -gt 0 ]; then git -C /repo add "$@"; else git -C /repo add -u; fi
git -C /repo commit -qm "$m" || exit 1
h=$(git -C /repo rev-parse --short=12 HEAD)
echo "fixed: property=$p $h ${m#fix: }" >> /verif/known_findings.txt
