#!/bin/bash
# run the repository's stable tests with planted bugs, one after the other: seedtest.sh <id>...
for ID in "$@"; do
W=/tmp/seedt-$ID; rm -rf "/tmp/seedt-$ID"; cp -a /repo "$W"; cd "$W" || exit 2
git checkout -q -- .; git apply "/verif/seeded/$ID/patch.diff" || { echo "$ID no apply"; continue; }
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=$W MPLBACKEND=Agg MPLCONFIGDIR=/tmp/mpl-seed OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=1
timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --tb=no -n ${N:-7} --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seedt-$ID.xml --ignore=tests/test_conmech/smoke tests > /tmp/seedt-$ID.log 2>&1 &
timeout 800 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --tb=no -p no:xdist --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seedt-$ID-s.xml tests/test_conmech/smoke > /tmp/seedt-$ID-s.log 2>&1
wait
python3 - "$ID" <<'P'
import json,sys,xml.etree.ElementTree as E
i=sys.argv[1]
passed=set()
for f in (f"/tmp/seedt-{i}.xml",f"/tmp/seedt-{i}-s.xml"):
    for c in E.parse(f).iter("testcase"):
        if not [x for x in c if x.tag in("failure","error","skipped")]:
            passed.add(c.get("classname")+"::"+c.get("name"))
st=json.load(open("/opt/vp/BASELINE.json"))["stable"]
miss=[s for s in st if s not in passed]
print(i,"stable tests missing:",len(miss),miss[:3], "" if miss else "OK")
P
rm -rf "/tmp/seedt-$ID"
done
