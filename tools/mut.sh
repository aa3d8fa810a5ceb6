#!/bin/bash
# mut.sh <PROPERTY[,PROPERTY]> <file> <sed-expr> : run checks against a scratch copy with one edit applied
set -u
rm -rf /tmp/m/repo; mkdir -p /tmp/m; cp -a /repo /tmp/m/repo; cd /tmp/m/repo || exit 3
sed -i -E "$3" "$2"; if git diff --quiet; then echo "NO CHANGE"; exit 3; fi
git diff -U0 | grep '^[+-][^+-]'
cd /verif
for p in ${1//,/ }; do PBT_BUILD=/tmp/m/build PBT_EVIDENCE=/tmp/m/ev.json PBT_REPO=/tmp/m/repo timeout 900 python3 run.py $p 2>&1 | grep -vE '^    #|^=|^  0x|^Shadow' | head -${LINES_MAX:-14}; done
