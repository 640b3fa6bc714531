#!/bin/bash
# seed.sh <seeded id> [nocheck|only]: the planted bug builds, passes the tests, is shown by its demo, and by the check
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != only ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $D/demo.sh >/tmp/seed_demo0.log 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -20 /tmp/seed_demo0.log; }
fi
git apply $D/patch.diff || exit 1
if [ "$2" != only ]; then
bash /verif/tools/fixit.sh
timeout 300 bash $D/demo.sh >/tmp/seed_demo1.log 2>&1 && echo "demo patched: NOT SHOWN" || { echo "demo patched: fails, good"; grep -m3 -E "panicked|assert|error" -A2 /tmp/seed_demo1.log; }
fi
[ "$2" = nocheck ] && exit 0
cd /verif; timeout 900 bash check.sh $P quick > /tmp/seed_check.log 2>&1; echo "check $P rc=$?"; grep -E "VIOLATION|executions" -B1 /tmp/seed_check.log | cut -c1-300 | head -8
