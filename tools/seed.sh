#!/bin/bash
# Validate a planted bug: seed.sh <id> [notest]   (expects /verif/seeded/<id>/{patch.diff,demo.sh,meta.json})
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/seedw-$ID
rm -rf "/tmp/seedw-$ID"; cp -a /repo "$W"; cd "$W" || exit 2
git checkout -q -- . 
bash "$D/demo.sh" >"/tmp/seed-$ID.log" 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$ID patch does not apply"; rm -rf "/tmp/seedw-$ID"; exit 1; }
bash "$D/demo.sh" >>"/tmp/seed-$ID.log" 2>&1; b=$?
rm -rf "/tmp/seedw-$ID"
echo "$ID demo clean=$a planted=$b"
[ "$a" = 0 ] && [ "$b" != 0 ] || { tail -5 "/tmp/seed-$ID.log"; exit 1; }
