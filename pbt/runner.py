"""Drives one property check: Hypothesis generates and shrinks, a PyPy worker decides.

  runner.py C01                 quick or thorough tier by VERIF_TIER, seed by VERIF_SEED
  runner.py C01 --replay FILE   re-run one saved failing case without Hypothesis
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import select
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
OUT = os.environ.get("VERIF_OUT", VERIF)  # evidence and replays; elsewhere only while developing
PYPY = "/opt/venv/bin/python"
CASE_TIMEOUT = 300
SHRINK_SECONDS = 25


class HarnessError(Exception):
    pass


class CaseDied(Exception):
    """The code under test hung or took the interpreter down with it."""


class Worker:
    def __init__(self, prop):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
                   MPLBACKEND="Agg", VERIF_SIDE="worker", PYTHONHASHSEED="0", OMP_NUM_THREADS="1")
        env.pop("PYTHONPATH", None)
        self.err = open("/tmp/verif_worker_%d.err" % os.getpid(), "w+")
        self.p = subprocess.Popen([PYPY, os.path.join(HERE, "worker.py"), prop], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, text=True, bufsize=1)
        self.history = []
        try:
            self._read()
        except CaseDied as e:
            raise HarnessError("start: %s" % e)

    def _stderr(self):
        self.err.flush()
        self.err.seek(0)
        return self.err.read()[-3000:]

    def _read(self):
        r, _, _ = select.select([self.p.stdout], [], [], CASE_TIMEOUT)
        if not r:
            self.p.kill()
            raise CaseDied("no answer within %d s" % CASE_TIMEOUT)
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            raise CaseDied("the interpreter ended (rc %s): %s" % (self.p.returncode, self._stderr()))
        return json.loads(line)

    def run(self, case):
        self.history.append(case)
        self.p.stdin.write(json.dumps(case, sort_keys=True) + "\n")
        self.p.stdin.flush()
        v = self._read()
        if v["st"] == "error":
            raise HarnessError(v["msg"])
        return v

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=20)
        except Exception:
            self.p.kill()
        self.err.close()
        try:
            os.unlink(self.err.name)
        except OSError:
            pass


def load(prop):
    sys.path[:0] = [VERIF, HERE]
    sys.dont_write_bytecode = True
    return importlib.import_module("props." + prop.lower())


def shard_main(prop, tier, seed, shard, shards, n, out):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    mod = load(prop)
    res = {"evals": 0, "nt": [], "labels": {}, "samples": [], "fail": None, "error": None, "history": None}
    labels = collections.Counter()
    nt = set()
    state = {"fail": None, "first": None}
    try:
        w = Worker(prop)

        def one(case, generated=True):
            v = w.run(case)
            if state["first"] is None:
                res["evals"] += 1
                for l in v["labels"]:
                    labels[l] += 1
                if v["nt"]:
                    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                    if h not in nt:
                        nt.add(h)
                        if len(res["samples"]) < 1 or (len(res["samples"]) < 2 and len(nt) > n // 2):
                            res["samples"].append(case)
            if v["st"] == "fail":
                if state["first"] is None:
                    state["first"] = (case, v["msg"], list(w.history))
                state["fail"] = (case, v["msg"])
                raise AssertionError(v["msg"])

        try:
            if hasattr(mod, "examples"):
                for case in mod.examples()[shard::shards]:
                    one(case)
                    labels["fixed example"] += 1

            @hypothesis.seed(seed * 1009 + shard * 7919 + 17)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      print_blob=False, report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                      phases=(Phase.generate, Phase.target) + (() if os.environ.get("VERIF_NOSHRINK") else (Phase.shrink,)))
            @given(mod.strategy(tier))
            def prop_test(case):
                one(case)

            prop_test()
        except (HarnessError, CaseDied):
            raise
        except BaseException as e:
            if state["fail"] is None:
                raise
            res["fail"] = state["fail"]
            res["first"] = state["first"][:2]
            res["history"] = state["first"][2]
        w.close()
    except CaseDied as e:  # not shrunk: every attempt could cost the whole timeout
        last = w.history[-1] if w.history else None
        res["fail"] = res["first"] = (last, str(e))
        res["history"] = list(w.history)
    except HarnessError as e:
        res["error"] = str(e)
    except BaseException as e:
        import traceback
        res["error"] = "driver: " + traceback.format_exc()[-3000:]
    res["nt"] = sorted(nt)
    res["labels"] = dict(labels)
    with open(out, "w") as f:
        json.dump(res, f)


def confirm(prop, cases):
    """Verdict of the last case when `cases` are run in order in a fresh process."""
    w = Worker(prop)
    try:
        v = None
        for c in cases:
            try:
                v = w.run(c)
            except CaseDied as e:
                return {"st": "fail", "msg": str(e), "nt": False, "labels": []}
        return v
    finally:
        w.close()


def save_replay(prop, cases, msg):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "message": msg, "cases": cases,
            "how": "cd /verif && ./check %s --replay <this file>" % prop}
    h = hashlib.sha256(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--n", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    prop = a.prop.upper()
    if a.shard is not None:
        return shard_main(prop, tier, seed, a.shard, a.shards, a.n, a.out)
    if a.replay:
        with open(a.replay) as f:
            body = json.load(f)
        v = confirm(prop, body["cases"])
        print(json.dumps(v))
        if v["st"] == "fail":
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
            return 1
        return 0

    t0 = time.time()
    mod = load(prop)
    total = a.n or mod.N[tier]
    shards = min(getattr(mod, "SHARDS", 6), total, int(os.environ.get("VERIF_SHARDS", 99)))
    procs = []
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix="verif_run_")
    try:
        for i in range(shards):
            n = total // shards + (1 if i < total % shards else 0)
            out = os.path.join(tmp, "s%d.json" % i)
            procs.append((out, subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "--shard", str(i),
                                                 "--shards", str(shards), "--n", str(n), "--out", out])))
        results = []
        for out, p in procs:
            p.wait()
            if not os.path.exists(out):
                results.append({"error": "shard died rc=%s" % p.returncode, "fail": None})
            else:
                with open(out) as f:
                    results.append(json.load(f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    labels = collections.Counter()
    nt = set()
    samples = []
    evals = 0
    for r in results:
        labels.update(r.get("labels") or {})
        nt.update(r.get("nt") or [])
        evals += r.get("evals", 0)
        samples += r.get("samples") or []
    violation = None
    errors = [r["error"] for r in results if r.get("error")]
    fails = [r for r in results if r.get("fail")]
    fails.sort(key=lambda r: len(json.dumps(r["fail"][0])))
    for r in fails:
        try:
            for cases in ([r["fail"][0]], [r["first"][0]], r["history"]):
                v = confirm(prop, cases)
                if v["st"] == "fail":
                    violation = (cases, v["msg"])
                    break
        except HarnessError as e:
            errors.append(str(e))
        if violation:
            break
    if fails and not violation:
        errors.append("a failure did not reproduce in a fresh process: " + fails[0]["fail"][1])

    cap = lambda s: s if len(json.dumps(s)) < 6000 else {"abridged": json.dumps(s)[:3000]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nt), "rule": mod.RULE,
                       "samples": [cap(s) for s in samples[:3]], "labels": dict(sorted(labels.items())),
                       "shards": shards},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, evals, len(nt), ev["wall_s"]))
    for k, c in sorted(labels.items(), key=lambda kv: -kv[1])[:40]:
        print("   %6d  %s" % (c, k))
    if violation:
        path = save_replay(prop, *violation)
        print("   " + violation[1][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("HARNESS ERROR: " + errors[0])
        return 2
    if evals and len(nt) < evals * getattr(mod, "MIN_NONTRIVIAL", 0.2):
        print("HARNESS ERROR: only %d of %d cases were non-trivial" % (len(nt), evals))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
