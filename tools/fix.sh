#!/bin/bash
# tools/fix.sh <prop> <commit message after "fix: "> : run the tests, commit /repo, record
bash /verif/tools/runtests.sh | tee /tmp/rt.txt; grep -q "'failed': 0" /tmp/rt.txt || { echo TESTS FAIL; exit 1; }
cd /repo && git commit -qam "fix: $2" && h=$(git log -1 --format=%h) && echo "fixed: property=$1 $h $2" | tee -a /verif/KNOWN-FINDINGS
