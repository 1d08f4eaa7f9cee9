#!/bin/bash
# catch.sh ID [PROP]: run the property's check against a planted bug in /repo, then undo it
s=/verif/seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo apply $s/patch.diff || exit 9
VERIF_SEED=${SEED:-1} bash /verif/check.sh $p ${TIER:-quick} 2>&1 | tail -4 | cut -c1-300
git -C /repo checkout -q -- .
echo "== $1 against $p done"
