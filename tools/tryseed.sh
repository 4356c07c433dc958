#!/bin/bash
# tryseed.sh ID : demo without and with the patch in the scratch copy /tmp/seed; the tests with "-t"; the check's verdict with "-c"
id=$1; d=/verif/seeded/$id; export DEMO_TARGET=/tmp/demo-target
git -C /tmp/seed checkout -q -- . ; cd /tmp/seed
bash $d/demo.sh > /tmp/seed-out.0 2>&1; a=$?
git apply $d/patch.diff || exit 9
bash $d/demo.sh > /tmp/seed-out.1 2>&1; b=$?
echo "$id unchanged=$a patched=$b"; tail -3 /tmp/seed-out.1
git -C /tmp/seed checkout -q -- .
[ "$2" = -c ] && { p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); git -C /repo apply $d/patch.diff; python3 /verif/lib/core.py $p | grep -v "^ " | cut -c1-300 | tail -4; git -C /repo checkout -q -- .; }
true
