"""Runs property checks against /repo's working tree, inside the interpreter the repository uses.

Protocol: one JSON case per input line, one JSON verdict per output line.
A verdict is {"st": "ok"|"fail"|"error", "msg": str, "nt": bool, "labels": [str]}.
"""
import hashlib
import importlib
import json
import os
import sys
import tempfile
import traceback
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Ctx:
    def __init__(self):
        self.nt = False
        self.labels = []

    def label(self, *names):
        for n in names:
            if n not in self.labels:
                self.labels.append(n)

    def nontrivial(self, flag=True):
        self.nt = self.nt or bool(flag)


def main():
    prop = sys.argv[1]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    # nothing the code under test prints may reach the protocol channel
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop.lower())
    work = os.path.join(scratch, "work")
    os.makedirs(work)
    os.makedirs(os.path.join(scratch, "log"))
    os.chdir(work)
    sys.path[:0] = [REPO, VERIF, HERE]
    sys.dont_write_bytecode = True
    try:
        import warnings
        warnings.simplefilter("ignore")
        import numpy as np
        np.seterr(all="ignore")
        import logging
        logging.disable(logging.CRITICAL)
        import wlib
        mod = importlib.import_module("props." + prop.lower())
        wlib.SCRATCH = scratch
        mod.setup() if hasattr(mod, "setup") else None
        warnings.filters[:] = [f for f in warnings.filters if f[0] == "error"] + \
                              [f for f in warnings.filters if f[0] != "error"]
        out.write(json.dumps({"st": "ready"}) + "\n")
        for line in sys.stdin:
            case = json.loads(line)
            ctx = Ctx()
            seed = int(hashlib.sha256(line.strip().encode()).hexdigest()[:8], 16)
            np.random.seed(seed)
            v = {"st": "ok", "msg": ""}
            try:
                mod.check(case, ctx)
            except wlib.Violation as e:
                v = {"st": "fail", "msg": str(e)[:1500]}
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                repo = [f for f in tb if os.path.abspath(f.filename).startswith(REPO + os.sep)]
                text = "%s: %s" % (type(e).__name__, str(e)[:600])
                if repo:
                    f = repo[-1]
                    v = {"st": "fail", "msg": "unexpected exception %s (raised through %s:%d in %s)"
                         % (text, os.path.relpath(f.filename, REPO), f.lineno, f.name)}
                else:
                    # what the code under test returned could not even be examined
                    v = {"st": "fail", "msg": "unusable result: " + text + "\n" + traceback.format_exc()[-2500:]}
            v["nt"] = ctx.nt
            v["labels"] = ctx.labels
            out.write(json.dumps(v) + "\n")
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
