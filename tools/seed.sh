#!/bin/bash
# seed.sh ID: checks that seeded/ID counts (applies, builds, passes the tests, demo 0 / nonzero), then runs its property's check
set -u
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
D=$(mktemp -d); cp -r $S/. $D; rm -f $D/*.diff $D/meta.json
timeout 300 bash $D/demo.sh >/dev/null 2>&1; echo "demo unchanged: $?"
git -C /repo apply $S/patch.diff || { echo "NO APPLY"; exit 2; }
timeout 300 bash $D/demo.sh 2>/dev/null | tail -2; echo "demo patched: ${PIPESTATUS[0]}"
/bin/rm -rf $D
if [ "${2:-}" != "nocheck" ]; then
bash /tmp/t/tests.sh
fi
cd /verif; for p in ${3:-$P}; do VERIF_SEED=1 VERIF_TIER=quick ./check.py $p 2>&1 | cut -c1-200 | tail -8; done
