import json, os, shutil, subprocess, sys
def mk(id_, prop, edits, needs, breaks, demo):
    d = f"/verif/seeded/{id_}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/seedmk-{id_}"
    subprocess.run(["rm", "-rf", w]); subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(old) == 1, (id_, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["rm", "-rf", w])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy("/tmp/seed/prelude.py", d + "/prelude.py")
    open(d + "/demo.py", "w").write("from prelude import *\n" + demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH="$(dirname "$0"):$PWD" exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
