#!/bin/bash
# seeded.sh <bug id> [check ids]: apply a planted bug to /repo, run checks (default: the one of its property), undo it.
D=/verif/seeded/$1
shift
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
[ -n "$(git -C /repo status --short)" ] && { echo "/repo not clean"; exit 2; }
git -C /repo apply "$D/patch.diff" || exit 2
for c in ${@:-$P}; do
    /verif/check.sh $c | cut -c1-300 | tail -n 4
done
git -C /repo checkout -- .
