#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, property, needs, breaks, edits=[(file,old,new)...], demo.
Writes /verif/seeded/<id>/ (patch against /repo HEAD); /repo is left clean."""
import sys, os, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def git(*a, **k): return subprocess.run(["git", "-C", "/repo"] + list(a), capture_output=True, text=True, check=True, **k).stdout
for spec in sys.argv[1:]:
    S = {}
    exec(open(spec).read(), S)
    assert git("status", "--porcelain", "-uno").strip() == "", "repo not clean"
    d = os.path.join(ROOT, "seeded", S["id"])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in S["edits"]:
            p = os.path.join("/repo", f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(git("diff"))
    finally:
        git("checkout", "--", ".")
    json.dump(dict(property=S["property"], needs=S["needs"], what_it_breaks=S["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.copy(os.path.join(ROOT, "tools/seedlib/mdl.py"), d)
    for f in S.get("files", []):
        shutil.copy(f, d)
    open(os.path.join(d, "demo.py"), "w").write("from mdl import *\n" + S["demo"].strip() + "\nprint('ok')\n")
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    print("written", S["id"])
