#!/bin/bash
# run the check of a planted bug's property against a copy of /repo with the bug: try.sh <id>... (ID:CNN to use another property's check)
cd /verif
for A in "$@"; do
ID=${A%%:*}
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
[ "$A" != "$ID" ] && P=${A#*:}
W=/tmp/tryw-$ID; rm -rf "/tmp/tryw-$ID"; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"
git -C "$W" init -q 2>/dev/null
( cd "$W" && git apply "/verif/seeded/$ID/patch.diff" ) || { echo "$ID does not apply"; continue; }
VERIF_REPO=$W timeout 900 ./check $P --tier quick --no-evidence > /tmp/try-$ID.log 2>&1; rc=$?
rm -rf "/tmp/tryw-$ID"
echo "$ID $P rc=$rc $(grep -m1 VIOLATION /tmp/try-$ID.log | cut -c1-120) $(tail -1 /tmp/try-$ID.log | cut -c1-100)"
done
