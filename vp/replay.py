"""Runs harnesses on the real build.  Executed with the project's own interpreter.

  python -m vp.replay --serve          JSON requests on stdin, answers on stdout (used by run.py)
  python -m vp.replay FILE             replays one counterexample file and prints the outcome
"""
import importlib
import json
import os
import sys
import time

os.environ.setdefault("MPLBACKEND", "agg")
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def run_one(prop, case, tier, inputs):
    from vp.ctx import ConcCtx, Skip, Violation

    P = importlib.import_module("props." + prop)
    cases = {c[0]: c for c in P.cases(tier)}
    _, fn, params = cases[case]
    S = ConcCtx(inputs, importlib.import_module)
    r = {"status": "ok"}
    try:
        fn(S, **params)
    except Violation as e:
        r = {"status": "violation", "label": str(e)}
    except Skip:
        r = {"status": "skip"}
    except Exception as e:
        import traceback

        r = {
            "status": "exception",
            "label": "%s: %s" % (type(e).__name__, e),
            "tb": traceback.format_exc()[-1500:],
        }
    r["outs"] = S.outs
    r["checks"] = S.checks
    return r


def serve():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import numpy

    numpy.seterr(all="ignore")
    out.write(json.dumps({"ready": True, "py": sys.version.split()[0]}) + "\n")
    out.flush()
    for line in sys.stdin:
        q = json.loads(line)
        r = run_one(q["prop"], q["case"], q["tier"], q["inputs"])
        out.write(json.dumps(r) + "\n")
        out.flush()


if __name__ == "__main__":
    if sys.argv[1:] == ["--serve"]:
        serve()
    else:
        import tempfile
        import shutil

        if "NUMBA_CACHE_DIR" not in os.environ:
            d = tempfile.mkdtemp()
            env = dict(os.environ, NUMBA_CACHE_DIR=d, NUMBA_BOUNDSCHECK="1", PYTHONDONTWRITEBYTECODE="1")
            import subprocess

            rc = subprocess.call(
                [os.environ.get("VP_PYTHON", "/opt/venv/bin/python"), os.path.abspath(__file__)] + sys.argv[1:], env=env
            )
            shutil.rmtree(d, ignore_errors=True)
            sys.exit(rc)
        q = json.load(open(sys.argv[1]))
        r = run_one(q["property"], q["case"], q["tier"], q["inputs"])
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["status"] in ("violation", "exception") else 0)
