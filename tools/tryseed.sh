#!/bin/bash
# tryseed.sh ID [check...]: apply seeded/ID to /repo, run its property's check (or the given ones), undo
cd /verif; id=$1; shift; p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
for c in ${@:-$p}; do ./check $c quick 2>&1 | cut -c1-300 | tail -2; done
git -C /repo checkout -- .
