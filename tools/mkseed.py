"""mkseed(id, property, file, [(old, new)...], needs, breaks, demo) writes seeded/<id>/ from the current /repo HEAD"""
import json
import os
import subprocess
import tempfile
import shutil

BASE = "ac1934b"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mkseed(id, prop, edits, needs, breaks, demo):
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="mk_")
    try:
        w = os.path.join(tmp, "r")
        subprocess.run(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), w], check=True)
        for f, old, new in edits:
            p = os.path.join(w, "src/py_eddy_tracker", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff", "-U0"], cwd=w, check=True, stdout=subprocess.PIPE, text=True).stdout
        base = subprocess.run(["git", "grep", "-h", "", BASE, "--", "src"], cwd=w, stdout=subprocess.PIPE, text=True).stdout.splitlines()
        base = set(base)
        minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        assert any(l in base for l in minus), (id, "no line of the original repository is changed", minus)
        for l in minus:
            if l not in base:
                print(id, "own line:", l)
        diff = subprocess.run(["git", "diff"], cwd=w, check=True, stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.py"), "w").write(demo.strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\n'
        'T=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\nexport NUMBA_CACHE_DIR=$T/nc MPLCONFIGDIR=$T/mpl\n'
        'timeout 280 /opt/venv/bin/python "$D/demo.py"\n')
