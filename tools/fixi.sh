#!/bin/bash
# fixi.sh PROP "fix: subject"   commits what is staged in /repo and records it
git -C /repo commit -qm "$2" || exit 1
echo "fixed: property=$1 $(git -C /repo rev-parse --short=12 HEAD) ${2#fix: }" >> /verif/known_findings.txt
