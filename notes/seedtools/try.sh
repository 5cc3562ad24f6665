#!/bin/bash
# try.sh ID : demo on clean and patched tree, then the property's check
id=$1; d=/verif/seeded/$id
cd /repo; git diff --quiet || { echo dirty; exit 1; }
bash $d/demo.sh > /tmp/seed/$id.clean 2>&1; echo "clean rc $?"
git apply $d/patch.diff || exit 1
bash $d/demo.sh > /tmp/seed/$id.bad 2>&1; echo "patched rc $?"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; timeout 900 python3 bin/check.py $p --tier quick 2>&1 | grep -v "executions  " | tail -4
git -C /repo checkout -- .
