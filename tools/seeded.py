"""Planted changes.

python3 tools/seeded.py test ID...   in a scratch copy of /repo: demo on the clean tree, apply, stable tests, demo, check
python3 tools/seeded.py table        rewrites the table of DESIGN.md from seeded/results.json"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]


def test(id, skip_tests=False):
    d = os.path.join(SEED, id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    res = dict(id=id, property=meta["property"])
    try:
        for sub in ("clean", "bug"):
            subprocess.run(["cp", "-a", os.environ.get("SEED_REPO", "/repo"), os.path.join(tmp, sub)], check=True)

        def env(sub):
            return dict(os.environ, PYTHONPATH=os.path.join(tmp, sub, "src"), NUMBA_CACHE_DIR=os.path.join(tmp, "nc_" + sub),
                        MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", MPLCONFIGDIR=os.path.join(tmp, "mpl"), PY=PY)

        bug = os.path.join(tmp, "bug")
        a = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=bug, stderr=subprocess.PIPE, text=True)
        if a.returncode:
            res["error"] = "patch: " + a.stderr
            return res
        shutil.copytree(d, os.path.join(tmp, "demo"))
        for sub in ("clean", "bug"):
            rc, o = run(["bash", os.path.join(tmp, "demo", "demo.sh")], os.path.join(tmp, sub), env(sub), 300)
            res["demo_" + sub] = rc
            res["demo_out_" + sub] = o[-600:]
        if not skip_tests:
            e = env("bug")
            rc, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300", "tests"], bug, e, 900)
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            m = re.findall(r"FAILED tests/(\w+)\.py::(\w+)", o)
            res["tests"] = "ok" if not [x for x in m if "tests.%s::%s" % x in base] and "passed" in o else o[-800:]
        e = dict(os.environ, VP_REPO=bug)
        rc, o = run(["python3-vt", "-m", "vp.run", meta["property"], "--tier", "quick", "--jobs", os.environ.get("VP_J", "8")], HERE, e, 1000)
        res["check"] = rc
        res["check_out"] = o[-1500:]
        res["caught"] = rc == 1 and "VIOLATION property=" + meta["property"] in o
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


def save(r):
    p = os.path.join(SEED, "results.json")
    a = json.load(open(p)) if os.path.exists(p) else {}
    lines = [l for l in r.get("check_out", "").splitlines() if l.strip()]
    a[r["id"]] = dict(property=r["property"], demo=[r.get("demo_clean"), r.get("demo_bug")], tests=r.get("tests", a.get(r["id"], {}).get("tests", "?"))[:20],
                      check=r.get("check"), caught=r.get("caught", False), by=lines[0][:160] if lines and r.get("caught") else "")
    json.dump(a, open(p, "w"), indent=1, sort_keys=True)


def table():
    a = json.load(open(os.path.join(SEED, "results.json")))
    M1, M2 = "<!-- seeded: begin -->\n", "<!-- seeded: end -->\n"
    out = ["| change | property | what it breaks | caught |\n", "|---|---|---|---|\n"]
    for k in sorted(a):
        mp = os.path.join(SEED, k, "meta.json")
        if not os.path.exists(mp):
            continue
        m = json.load(open(mp))
        out.append("| %s | %s | %s | %s |\n" % (k, a[k]["property"], m["what_it_breaks"], a[k]["by"].split(": ", 1)[-1] if a[k]["caught"] else "no"))
    d = os.path.join(HERE, "DESIGN.md")
    s = open(d).read()
    body = M1 + "".join(out) + M2
    s = s[: s.index(M1)] + body + s[s.index(M2) + len(M2):] if M1 in s else s + "\n## Planted changes\n\n" + body
    open(d, "w").write(s)


if __name__ == "__main__":
    if sys.argv[1] == "table":
        table()
    else:
        ids = [i for i in sys.argv[2:] if not i.startswith("-")] or sorted(x for x in os.listdir(SEED) if os.path.isdir(os.path.join(SEED, x)))
        for i in ids:
            r = test(i, "--no-tests" in sys.argv)
            save(r)
            ok = r.get("demo_clean") == 0 and r.get("demo_bug", 0) != 0 and r.get("tests", "ok") == "ok"
            print(i, r["property"], "demo %s/%s" % (r.get("demo_clean"), r.get("demo_bug")), "tests", r.get("tests", "-")[:300], "check", r.get("check"), "CAUGHT" if r.get("caught") else "MISSED", "" if ok else "NOT VALID", r.get("error", ""))
            if not ok:
                print("   demo clean:", r.get("demo_out_clean"), "\n   demo bug:", r.get("demo_out_bug"))
            if not r.get("caught"):
                print("   ", r.get("check_out", "")[-700:])
            sys.stdout.flush()
