#!/bin/bash
# tryseed.sh SEED [CHECK args]: run a property's check against a scratch copy with the planted change; then the demo in that copy
s=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
w=/tmp/seed_src; 
mkdir -p $w; rsync -a --delete --exclude _build --exclude .git /repo/ $w/
(cd $w && git init -q 2>/dev/null; git apply --unsafe-paths --directory=$w /verif/seeded/$s/patch.diff 2>/dev/null || patch -s -p1 < /verif/seeded/$s/patch.diff) || exit 3
cd /verif
VERIF_REPO=$w VERIF_BUILD=/tmp/seed_bld timeout 900 ./check $p "$@" | tail -4 | cut -c1-300
