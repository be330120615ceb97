#!/bin/bash
# fixed.sh Pxx [n]: list HEAD~n of /repo in known_findings.txt
h=$(git -C /repo log -1 --format=%h HEAD~${2:-0}); s=$(git -C /repo log -1 --format=%s HEAD~${2:-0})
echo "fixed: property=$1 $h ${s#fix: }" >> /verif/known_findings.txt; tail -1 /verif/known_findings.txt
