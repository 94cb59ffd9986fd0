#!/usr/bin/env python3
"""Helper for planted bugs (no check uses it).

  plant.py make SPEC.py [ids]   make /verif/seeded/<id> from a spec and confirm it in a scratch copy
  plant.py run ID [PROP..]      run checks (default: the bug's own property) against the bug in a scratch copy
  plant.py matrix [ID..]        run every bug against all checks that share a file with it, into tools/caught.json
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository; everything it writes goes to a scratch directory
R="$PWD"
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/work" "$T/log"
cd "$T/work" || exit 3
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH="$R" REPO="$R"
/opt/venv/bin/python "$D/demo.py"
'''
HEADER = '''import warnings
warnings.simplefilter("ignore")
import sys
import numpy as np
import autograd.numpy as anp
np.seterr(all="ignore")


def same(what, got, want, tol=1e-6):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * (1 + np.abs(want))):
        print("%s: got %s, expected %s" % (what, got, want))
        sys.exit(1)


'''
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, env=dict(env, **k))


def copy():
    d = tempfile.mkdtemp(prefix="plant_")
    subprocess.check_call("cd /repo && git archive HEAD | tar -x -C %s" % d, shell=True)
    return d


def tests(d):
    x = os.path.join(d, "junit.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
        "--randomly-dont-reorganize", "--randomly-seed=0", "-o", "python_files=test_*.py Test_*.py", "-o", "junit_family=xunit2",
        "--junitxml=" + x, "tests"], d)
    out = os.path.join(d, "res.json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x], d)
    r = json.load(open(out))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = r.get("passed") or [k for k, v in r.get("results", r).items() if v in ("pass", "passed")]
    return [s for s in stable if s not in ok]


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = copy()
        try:
            sh("git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm a", d)
            for path, old, new in b["edits"]:
                s = open(os.path.join(d, path)).read()
                assert s.count(old) == 1, (b["id"], path, s.count(old), old)
                open(os.path.join(d, path), "w").write(s.replace(old, new))
            diff = sh("git diff", d).stdout
            out = os.path.join(SEEDED, b["id"])
            tmp = out + ".new"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            open(os.path.join(tmp, "patch.diff"), "w").write(diff)
            open(os.path.join(tmp, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
            open(os.path.join(tmp, "demo.py"), "w").write(HEADER + b["demo"].strip() + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(tmp, "meta.json"), "w"), indent=1)
            bad = tests(d)
            demo = sh(os.path.join(tmp, "demo.sh"), d)
            sh("git checkout -q -- .", d)
            clean = sh(os.path.join(tmp, "demo.sh"), d)
            ok = not bad and demo.returncode != 0 and clean.returncode == 0
            print("%-28s %s" % (b["id"], "ok" if ok else "BAD tests=%s demo=%s clean=%s" % (bad, demo.returncode, clean.returncode)), flush=True)
            if not ok or "-v" in sys.argv:
                print("   patched: " + demo.stdout[-600:])
                print("   clean:   " + clean.stdout[-600:])
            if ok:
                shutil.rmtree(out, ignore_errors=True)
                os.rename(tmp, out)
            else:
                shutil.rmtree(tmp)
        finally:
            shutil.rmtree(d)


def run(id, props):
    meta = json.load(open(os.path.join(SEEDED, id, "meta.json")))
    d = copy()
    try:
        r = sh(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], d)
        assert r.returncode == 0, r.stdout
        for p in props or [meta["property"]]:
            r = sh([os.path.join(VERIF, "check"), p], VERIF, VERIF_REPO=d, VERIF_OUT=d, VERIF_NOSHRINK="1")
            lines = r.stdout.splitlines()
            msg = next((l for i, l in enumerate(lines) if i + 1 < len(lines) and lines[i + 1].startswith("VIOLATION")), "")
            print("%-28s %s rc=%d %s | %s" % (id, p, r.returncode, lines[0] if lines else "", msg.strip()[:230]), flush=True)
            if r.returncode == 2:
                print(r.stdout[-800:])
            record(id, p, r.returncode == 1)
    finally:
        shutil.rmtree(d)


def record(id, prop, hit):
    path = os.path.join(VERIF, "tools", "caught.json")
    c = json.load(open(path)) if os.path.exists(path) else {}
    c.setdefault(id, {})[prop] = bool(hit)
    with open(path, "w") as f:
        json.dump(c, f, indent=0, sort_keys=True)
        f.write("\n")


def matrix(ids):
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    path = os.path.join(VERIF, "tools", "caught.json")
    for id in ids or sorted(os.listdir(SEEDED)):
        c = json.load(open(path)) if os.path.exists(path) else {}
        files = [l[6:] for l in open(os.path.join(SEEDED, id, "patch.diff")).read().split("\n") if l.startswith("+++ b/")]
        own = json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]
        todo = [p["id"] for p in props if (set(files) & set(p["anchors"]["files"]) or p["id"] == own) and p["id"] not in c.get(id, {})]
        if todo:
            run(id, todo)


if sys.argv[1] == "matrix":
    matrix(sys.argv[2:])
if sys.argv[1] == "make":
    make(sys.argv[2], [a for a in sys.argv[3:] if a != "-v"])
elif sys.argv[1] == "run":
    run(sys.argv[2], sys.argv[3:])
