#!/bin/bash
# tools/fixf.sh <prop> <message after "fix: "> <file>... : commit only these files (tests were run before), record
p=$1; m=$2; shift 2
cd /repo && git commit -qm "fix: $m" -- "$@" && h=$(git log -1 --format=%h) && echo "fixed: property=$p $h $m" | tee -a /verif/KNOWN-FINDINGS
