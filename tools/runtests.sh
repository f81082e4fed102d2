#!/bin/bash
# build + run the baseline tests of /repo (or $1 ignored); prints baseline tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()}, {k:(len(v) if hasattr(v,'__len__') else v) for k,v in b.items()})
P
