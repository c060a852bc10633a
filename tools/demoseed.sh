#!/bin/bash
# demoseed.sh SEED...: in /repo itself: demo on the clean tree, then patch, build, tests, demo; undo
for s in "$@"; do
cp -r /verif/seeded/$s /tmp/demo_$s; rm /tmp/demo_$s/patch.diff /tmp/demo_$s/meta.json
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash /tmp/demo_$s/demo.sh >/tmp/demo_$s.clean 2>&1; c=$?
git apply /verif/seeded/$s/patch.diff || continue
bash /opt/vp/build.sh >/tmp/demo_build 2>&1; b=$?
timeout 300 bash /tmp/demo_$s/demo.sh >/tmp/demo_$s.bug 2>&1; g=$?
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/demo_t.json >/dev/null 2>&1
t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/demo_t.json'))['passed']);print(sorted(b))"); fi
git checkout -q -- .
echo "$s clean=$c build=$b bug=$g lost=$t"; rm -rf /tmp/demo_$s
done
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1
