"""Check driver:  python3-vt -m vp.run PROPERTY [--tier quick|thorough] [--case NAME] [-v]

exit 0: every case explored completely, every obligation discharged.
exit 1 + VIOLATION line: a counterexample found by the solver reproduces on the real build.
exit 2: inconclusive (unsupported construct, unknown, time out, counterexample not reproduced)."""
import os

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")  # its threads do not survive in worker processes
import argparse
import importlib
import json
import multiprocessing as mp
import queue
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
VENV = os.environ.get("VP_PYTHON", "/opt/venv/bin/python")


# ------------------------------------------------------------------ replay server client
class Real:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.dir = tempfile.mkdtemp(prefix="vp_real_")
        self.p = None
        self.buf = b""
        self.start()

    def start(self):
        env = dict(
            os.environ,
            NUMBA_CACHE_DIR=os.path.join(self.dir, "numba"),
            MPLCONFIGDIR=os.path.join(self.dir, "mpl"),
            NUMBA_BOUNDSCHECK="1",
            PYTHONDONTWRITEBYTECODE="1",
            MPLBACKEND="agg",
            PYTHONHASHSEED="0",
            NUMBA_NUM_THREADS="1",
            OMP_NUM_THREADS="1",
        )
        env.pop("PYTHONPATH", None)
        env.pop("NUMBA_DISABLE_JIT", None)
        self.p = subprocess.Popen(
            [VENV, os.path.join(HERE, "vp", "replay.py"), "--serve"],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=open(os.path.join(self.dir, "stderr"), "ab"),
            env=env,
            cwd=self.dir,
            start_new_session=True,
        )
        self.buf = b""
        self.ready = False

    def _readline(self, timeout):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            t = end - time.time()
            if t <= 0:
                return None
            r, _, _ = select.select([self.p.stdout], [], [], t)
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                return b""
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return line

    def ask(self, case, inputs, timeout=150):
        if not self.ready:
            l = self._readline(120)
            if not l:
                raise RuntimeError("real build did not start: " + open(os.path.join(self.dir, "stderr")).read()[-2000:])
            self.ready = True
        q = {"prop": self.prop, "case": case, "tier": self.tier, "inputs": inputs}
        self.p.stdin.write((json.dumps(q) + "\n").encode())
        self.p.stdin.flush()
        l = self._readline(timeout)
        if not l:
            st = "timeout" if l is None else "crash"
            self.stop()
            self.start()
            return {"status": st, "label": "real build " + ("did not terminate in %ds" % timeout if l is None else "crashed"), "outs": []}
        return json.loads(l)

    def stop(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.p = None

    def close(self):
        self.stop()
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ workers
def worker(prop, tier, tasks, results, waiting, outstanding, stop, opts):
    sys.setrecursionlimit(5000)
    os.environ["VP_WORKER"] = "1"
    import z3

    from vp import engine as eng
    from vp import loader as ldr
    from vp.symctx import FoundViolation, SymCtx

    P = importlib.import_module("props." + prop)
    cases = P.cases(tier)
    lod = ldr.Loader(getattr(P, "MODELS", None))
    S = SymCtx(lod)
    eng.set_engine(eng.Engine())
    import logging

    logging.disable(logging.CRITICAL)
    seen_case = set()

    def on_alarm(sig, frm):
        raise eng.PathTimeout()

    # processor time: a busy machine does not change the outcome of a path
    signal.signal(signal.SIGPROF, on_alarm)

    def alarm(n):
        signal.setitimer(signal.ITIMER_PROF, n)

    while True:
        item = tasks.get()
        if item is None:
            return
        with waiting.get_lock():
            waiting.value -= 1
        ci, prefix = item
        name, fn, params = cases[ci]
        st = dict(
            case=name, paths=0, pruned=0, queries=0, qtime=0.0, forks=0, checks=0, labels={}, funcs=[], samples=[],
            maxdec=0, wall=0.0,
        )
        t0 = time.time()
        E = eng.Engine(timeout_ms=opts["solver_ms"], max_decisions=opts["max_dec"])
        eng.set_engine(E)
        E.set_prefix(prefix)
        funcs = set()
        trace = name not in seen_case
        seen_case.add(name)
        npath = nuns = 0
        try:
            while not stop.value:
                E.start()
                S.reset()
                S.tier = tier
                alarm(opts["path_s"])
                status, info = "ok", None
                if trace and npath < 3:

                    def prof(frame, ev, arg):
                        if ev == "call":
                            co = frame.f_code
                            if co.co_filename.startswith(ldr.SRC) and "<lambda>" not in co.co_qualname:
                                funcs.add(os.path.relpath(co.co_filename, ldr.SRC) + ":" + co.co_qualname)

                    sys.setprofile(prof)
                try:
                    fn(S, **params)
                    m = E.get_model()  # reachability witness: the end of the path is satisfiable
                except eng.PathEnd:
                    status = "pruned"
                except FoundViolation as e:
                    status, info = "violation", e.label
                except eng.PathTimeout:
                    status, info = "timeout", "no result within %ds on one path" % opts["path_s"]
                except (eng.EngineUnsupported, eng.Inconclusive, z3.Z3Exception) as e:
                    status, info = "unsupported", "%s: %s | %s" % (
                        type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:]))
                except Exception as e:
                    status = "exception"
                    info = "%s: %s | %s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:]))
                finally:
                    alarm(0)
                    sys.setprofile(None)
                npath += 1
                st["paths"] += status != "pruned"
                st["pruned"] += status == "pruned"
                st["maxdec"] = max(st["maxdec"], len(E.trail))
                for l in S.labels:
                    st["labels"][l] = st["labels"].get(l, 0) + 1
                nuns += status == "unsupported"
                if nuns > 25:
                    results.put(("bad", name, status, info))
                    break
                if status in ("violation", "exception", "timeout", "unsupported"):
                    try:
                        alarm(120)
                        inp = S.model_inputs()
                        alarm(0)
                        results.put(("cand", name, status, info, inp))
                    except eng.PathEnd:
                        pass
                    except (Exception, eng.PathTimeout) as e:
                        results.put(("bad", name, status, "no model: %r after %s" % (e, info)))
                elif status == "ok" and (npath in (1, 2, 3, 5, 9, 17, 33, 65, 129, 257, 513) and len(st["samples"]) < opts["samples"]):
                    st["samples"].append((S.model_inputs(), S.model_outs()))
                if waiting.value < opts["jobs"] and time.time() - t0 > 0.3:
                    pf = E.split_off()
                    if pf is not None:
                        with outstanding.get_lock():
                            outstanding.value += 1
                        with waiting.get_lock():
                            waiting.value += 1
                        tasks.put((ci, pf))
                if not E.backtrack():
                    break
        except BaseException as e:
            results.put(("bad", name, "engine", "".join(traceback.format_exception(e))[-3000:]))
        st.update(queries=E.nq, qtime=E.qtime, forks=E.nforks, checks=E.ndischarged, funcs=sorted(funcs), wall=time.time() - t0)
        results.put(("done", st))


def known_findings():
    p = os.path.join(HERE, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                r.append(l)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-real", action="store_true")
    ap.add_argument("--limit", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    limit = a.limit or (780 if tier == "quick" else 3400)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = importlib.import_module("props." + prop)
    cases = P.cases(tier)
    opts = dict(
        solver_ms=getattr(P, "SOLVER_MS", 60000),
        max_dec=getattr(P, "MAX_DECISIONS", 6000),
        path_s=getattr(P, "PATH_S", 120),
        samples=getattr(P, "SAMPLES", 3),
        jobs=a.jobs,
    )
    real = None if a.no_real else Real(prop, tier)
    ctxm = mp.get_context("fork")
    tasks, results = ctxm.Queue(), ctxm.Queue()
    waiting, outstanding, stop = ctxm.Value("i", 0), ctxm.Value("i", 0), ctxm.Value("i", 0)
    for ci, c in enumerate(cases):
        if a.case and c[0] != a.case:
            continue
        outstanding.value += 1
        waiting.value += 1
        tasks.put((ci, []))
    ws = [
        ctxm.Process(target=worker, args=(prop, tier, tasks, results, waiting, outstanding, stop, opts), daemon=True)
        for _ in range(a.jobs)
    ]
    for w in ws:
        w.start()
    tot, bad, unrepro, violation = {}, [], [], None
    samples, nval, mism = [], 0, []
    funcs = set()
    ncand = 0
    per_label_cand = {}
    while outstanding.value > 0 and violation is None:
        if time.time() - t0 > limit:
            bad.append(("all", "timeout", "check exceeded %ds" % limit))
            break
        try:
            r = results.get(timeout=1)
        except queue.Empty:
            dead = [w for w in ws if not w.is_alive()]
            if dead:
                bad.append(("all", "engine", "worker died with status %s" % dead[0].exitcode))
                break
            continue
        if r[0] == "bad":
            bad.append(r[1:])
            if a.v:
                print("BAD", *r[1:], flush=True)
            if len(bad) > 12 or time.time() - t0 > limit:
                break
        elif r[0] == "cand":
            _, name, status, info, inp = r
            ncand += 1
            key = (name, info.split("|")[0])
            per_label_cand[key] = per_label_cand.get(key, 0) + 1
            if a.v and per_label_cand[key] <= 2:
                print("CAND", name, status, info, json.dumps(inp), flush=True)
            if status == "unsupported" and not any(b[0] == name and b[2] == info for b in bad) and len(bad) < 4:
                bad.append((name, status, info))
            if per_label_cand[key] > (40 if status == "unsupported" else 6):
                continue
            if real is None:
                if status == "unsupported":
                    continue
                unrepro.append((name, info, inp, {}))
                if len(unrepro) > 8:
                    break
                continue
            rr = real.ask(name, inp, timeout=200)
            ok = rr["status"] in ("violation", "exception", "crash") or (rr["status"] == "timeout")
            if ok:
                violation = (name, info, inp, rr)
            elif status == "unsupported":
                pass
            else:
                unrepro.append((name, info, inp, rr))
                if len(unrepro) > 12:
                    break
        else:
            st = r[1]
            with outstanding.get_lock():
                outstanding.value -= 1
            c = tot.setdefault(
                st["case"],
                dict(paths=0, pruned=0, queries=0, qtime=0.0, forks=0, checks=0, labels={}, maxdec=0, cpu=0.0, tasks=0),
            )
            for k in ("paths", "pruned", "queries", "qtime", "forks", "checks"):
                c[k] += st[k]
            c["cpu"] += st["wall"]
            c["tasks"] += 1
            c["maxdec"] = max(c["maxdec"], st["maxdec"])
            for l, n in st["labels"].items():
                c["labels"][l] = c["labels"].get(l, 0) + n
            funcs.update(st["funcs"])
            for s in st["samples"]:
                if sum(1 for x in samples if x[0] == st["case"]) < opts["samples"] * 2:
                    samples.append((st["case"], s))
    stop.value = 1
    complete = outstanding.value == 0 and not bad
    for w in ws:
        w.kill()
    # encoding validation: models of explored paths, through the real build
    if violation is None and real is not None and complete:
        for name, (inp, outs) in samples:
            if time.time() - t0 > limit:
                break
            rr = real.ask(name, inp, timeout=200)
            nval += 1
            if rr["status"] in ("violation", "exception", "crash", "timeout"):
                violation = (name, "path model violates the property on the real build only: " + str(rr.get("label")), inp, rr)
                break
            if rr["status"] == "skip":
                mism.append((name, inp, "assumption rejected on the real build"))
                continue
            from vp.ctx import same

            if not same(json.loads(json.dumps(outs)), rr["outs"]):
                mism.append((name, inp, {"sym": outs, "real": rr["outs"]}))
    if real is not None:
        real.close()
    vac = [n for n, c in tot.items() if not c["checks"] or not c["paths"]] if complete else []
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(P, "LEVEL", "model_checking"),
        coverage=dict(
            states=sum(c["paths"] for c in tot.values()),
            transitions=sum(c["forks"] for c in tot.values()),
            traces_validated_against_impl=nval - len(mism),
            samples=[dict(case=n, input=s_[0], output=s_[1]) for n, s_ in samples[:4]],
            explanation="bounded: a state is the end of one symbolic path (stands for every input that follows it), "
            "a transition is a branch point where the solver found both outcomes possible",
            method="symbolic execution of the repository source (re-read at this run), z3 verdict per obligation",
            functions_encoded=sorted(funcs),
            bounds=P.BOUNDS if not callable(getattr(P, "BOUNDS", None)) else P.BOUNDS(tier),
            outside=getattr(P, "OUTSIDE", ""),
            cases={n: {k: (round(v, 2) if isinstance(v, float) else v) for k, v in c.items()} for n, c in sorted(tot.items())},
            queries=sum(c["queries"] for c in tot.values()),
            obligations_discharged=sum(c["checks"] for c in tot.values()),
            solver_time_s=round(sum(c["qtime"] for c in tot.values()), 2),
            complete=complete,
            counterexample_candidates=ncand,
            replay_mismatches=len(mism),
            vacuous_cases=vac,
        ),
        wall_s=round(time.time() - t0, 2),
    )
    if hasattr(P, "ASSUMPTIONS"):
        ev["coverage"]["assumptions"] = P.ASSUMPTIONS
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rc = 0
    if violation is not None:
        name, info, inp, rr = violation
        rp = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
        json.dump(
            dict(property=prop, case=name, tier=tier, inputs=inp, solver_says=info, real_build=rr,
                 how="python3 %s/vp/replay.py %s" % (HERE, rp)),
            open(rp, "w"), indent=1)
        print("%s: case %s: %s" % (prop, name, info.split("|")[0]))
        print("  input: %s" % json.dumps(inp))
        print("  real build: %s %s" % (rr["status"], rr.get("label", "")))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        ev["coverage"]["violation"] = dict(case=name, info=info, inputs=inp)
        rc = 1
    elif bad or unrepro or mism or vac:
        for b in bad:
            print("INCONCLUSIVE %s: %s" % (prop, " ".join(map(str, b))))
        for u in unrepro[:3]:
            print("INCONCLUSIVE %s: counterexample of case %s (%s) does not reproduce on the real build: %s -> %s"
                  % (prop, u[0], u[1], json.dumps(u[2]), json.dumps(u[3])))
        for m in mism[:3]:
            print("INCONCLUSIVE %s: encoding and real build differ in case %s on %s: %s" % (prop, m[0], json.dumps(m[1]), json.dumps(m[2])))
        for v in vac:
            print("INCONCLUSIVE %s: case %s never reached an obligation" % (prop, v))
        rc = 2
    ev["coverage"]["result"] = {0: "held on everything explored", 1: "violated", 2: "inconclusive"}[rc]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        for l in known_findings():
            if l.startswith("KNOWN-FINDING:") and ("property=%s " % prop) in l:
                print(l)
    print("%s [%s] rc=%d cases=%d paths=%d queries=%d discharged=%d solver=%.1fs validated=%d wall=%.1fs"
          % (prop, tier, rc, len(tot), ev["coverage"]["states"], ev["coverage"]["queries"],
             ev["coverage"]["obligations_discharged"], ev["coverage"]["solver_time_s"], nval, time.time() - t0))
    if a.v:
        for n, c in sorted(tot.items()):
            print("   %-30s paths=%d q=%d forks=%d cpu=%.1f qt=%.1f" % (n, c["paths"], c["queries"], c["forks"], c["cpu"], c["qtime"]))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
