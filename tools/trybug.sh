#!/bin/bash
# trybug.sh ID [PROP] : run the property's check with the planted change applied
id=$1; p=${2:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
cd /verif && timeout 900 python3-vt check.py $p 2>&1 | cut -c1-230 | tail -${N:-6}; rc=${PIPESTATUS[0]}
git -C /repo checkout -- .
echo "== $id $p exit $rc"
