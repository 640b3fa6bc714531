#!/bin/bash
# usage: fixit.sh "fix: message"  -- build, run the stable tests, compare with the baseline, commit
cd /repo
bash /opt/vp/build.sh >/tmp/fix_build.log 2>&1 || { tail -40 /tmp/fix_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix_out.json >/tmp/fix_test.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fix_out.json'))
def passed(x):
    for k in ('stable','passed','pass'):
        if k in x: return set(x[k])
    print(list(x)); sys.exit(1)
m=passed(b)-passed(o)
print('missing',m) if m else print('tests ok',len(passed(o)))
sys.exit(1 if m else 0)
P
if [ -n "$1" ]; then git commit -qam "$1"; git log --oneline | head -1; fi
