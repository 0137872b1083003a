#!/bin/bash
# tryseed.sh ID [tests]: demo on the clean tree, demo and check with the patch (undone afterwards)
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
bash $d/demo.sh >/dev/null 2>&1; a=$?
git apply $d/patch.diff || exit 9
bash $d/demo.sh >/dev/null 2>&1; b=$?
(cd /verif && timeout 900 ./check $p quick) >/tmp/w/seed-$id.log 2>&1; c=$?
git -C /repo checkout -- .
echo "$id $p demo clean=$a patched=$b check=$c $(grep -c VIOLATION /tmp/w/seed-$id.log)"
