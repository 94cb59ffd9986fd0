#!/usr/bin/env python3
"""Operator-level mutation of the repository, to find what the checks miss (no check uses it).

  mutate.py list FILE..               count the mutants of the files
  mutate.py run OUT.jsonl SEED N [FILE..]   N random mutants that pass the stable tests, each against the checks anchored in its file
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
FILES = ["ExpectationPropagation/Iterations.py", "ExpectationPropagation/Nodes.py", "Filters/KalmanFilter.py",
         "MomentMatching/Estimator.py", "MomentMatching/MomentMatch.py", "MomentMatching/MonteCarloTransform.py",
         "MomentMatching/TaylorLinearisation.py", "MomentMatching/UnscentedTransform.py", "StateModel/Gaussian.py",
         "Systems/BearingOnlyTrackingTurn.py", "Systems/BearingsOnlyTracking.py", "Systems/DynamicSystem.py", "Systems/L96.py",
         "Systems/UniformNonlinearGrowthModel.py", "Utils/Database.py", "Utils/Metrics.py", "Utils/Plot_Helper.py", "Utils/linalg.py",
         "Experiments/EP_FullSweep.py", "Experiments/EP_Sweep_BearingsOnly.py", "Experiments/DisplayResults.py",
         "Experiments/IEKS_Sweep_BearingsOnly.py", "Experiments/EP_Sweep_L96.py", "Experiments/IEKS_Sweep_L96.py", "Experiments/IEKS_Sweep_UNGM.py"]


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def rep(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and isinstance(n.test.left, ast.Name) and n.test.left.id == "__name__":
            for k in ast.walk(n):
                skip.add(k)
    ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*", ast.FloorDiv: "/", ast.Mod: "*"}
    sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.MatMult: "@", ast.FloorDiv: "//", ast.Mod: "%"}
    cmps = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
            ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            l, r = text(n.left), text(n.right)
            rep(n, "(%s) %s (%s)" % (l, ops.get(type(n.op), "+"), r), "op %s" % type(n.op).__name__)
            rep(n, "(%s)" % l, "drop right of %s" % type(n.op).__name__)
            rep(n, "(%s)" % r, "drop left of %s" % type(n.op).__name__)
            if isinstance(n.op, (ast.MatMult, ast.Sub, ast.Div)):
                rep(n, "(%s) %s (%s)" % (r, sym[type(n.op)], l), "swap %s" % type(n.op).__name__)
        elif isinstance(n, ast.Attribute) and n.attr == "T" and isinstance(n.ctx, ast.Load):
            rep(n, text(n.value), "drop .T")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            new = [repr(v + 1)] if type(v) is int else [repr(v * 1.5 if v else 1.0)]
            if v == 1:
                new.append("0")
            if type(v) is int and v > 1:
                new.append(repr(v - 1))
            for x in new:
                rep(n, x, "constant %r to %s" % (v, x))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            rep(n, repr(not n.value), "flip bool")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in cmps.get(type(n.ops[0]), []):
                rep(n, "%s %s %s" % (text(n.left), o, text(n.comparators[0])), "compare %s" % o)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            rep(n, text(n.operand), "drop unary")
        elif isinstance(n, ast.BoolOp):
            rep(n, text(n.values[0]), "first of bool op")
            rep(n, text(n.values[-1]), "last of bool op")
        elif isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    # remove the keyword with a neighbouring comma
                    a, b = span(k)
                    pre = raw[:a].rstrip()
                    if pre.endswith(b","):
                        new = pre[:-1] + raw[b:]
                    else:
                        post = raw[b:].lstrip()
                        new = pre + (post[1:] if post[:1] == b"," else post)
                    out.append((n.lineno, "drop keyword " + k.arg, new.decode()))
            if len(n.args) >= 2:
                a, b = text(n.args[0]), text(n.args[1])
                s0, _ = span(n.args[0])
                _, e1 = span(n.args[1])
                out.append((n.lineno, "swap arguments", (raw[:s0] + ("%s, %s" % (b, a)).encode() + raw[e1:]).decode()))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "ravel", "squeeze", "atleast_2d", "atleast_1d", "symmetrize", "reshape"):
                if n.func.attr == "copy" and not n.args:
                    rep(n, text(n.func.value), "drop copy")
                elif n.args:
                    rep(n, text(n.args[0]), "drop " + n.func.attr)
            if isinstance(n.func, ast.Name) and n.func.id in ("symmetrize", "abs", "float", "int", "len") and n.args and n.func.id != "len":
                rep(n, "(%s)" % text(n.args[0]), "drop " + n.func.id)
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Return)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.AugAssign):
                rep(n, "%s = %s" % (text(n.target), text(n.value)), "augmented to plain")
                rep(n, "%s %s= %s" % (text(n.target), ops.get(type(n.op), "+"), text(n.value)), "augmented op")
            if isinstance(n, ast.Return):
                continue
            rep(n, "pass", "drop statement")
        elif isinstance(n, (ast.If, ast.IfExp)):
            rep(n.test, "True", "condition true")
            rep(n.test, "False", "condition false")
        elif isinstance(n, ast.FunctionDef):
            args = [a.arg for a in n.args.args if a.arg not in ("self", "cls")]
            for k in ast.walk(n):
                if isinstance(k, ast.Name) and isinstance(k.ctx, ast.Load) and k.id in args and len(args) > 1:
                    other = args[(args.index(k.id) + 1) % len(args)]
                    rep(k, other, "name %s to %s" % (k.id, other))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                rep(n.slice.lower, "", "drop slice start")
            if n.slice.upper is not None:
                rep(n.slice.upper, "", "drop slice end")
    good = []
    seen = {src}
    for line, what, s in out:
        if s in seen:
            continue
        seen.add(s)
        try:
            compile(s, path, "exec")
        except (SyntaxError, ValueError):
            continue
        good.append((line, what, s))
    return good


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or FILES:
            print(len(mutants("/repo/" + f)), f)
        return
    out, seed, n = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or FILES
    sys.argv = ["plant.py", "none"]
    import importlib.util
    spec = importlib.util.spec_from_file_location("plant", os.path.join(VERIF, "tools", "plant.py"))
    plant = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(plant)
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    all_ = [(f,) + m for f in files for m in mutants("/repo/" + f)]
    rng = random.Random(seed)
    rng.shuffle(all_)
    done = 0
    for f, line, what, s in all_:
        if done >= n:
            break
        d = plant.copy()
        rec = {"file": f, "line": line, "what": what}
        try:
            old = open(os.path.join(d, f)).read()
            rec["diff"] = [b.strip() for a, b in zip(old.splitlines(), s.splitlines()) if a != b][:2]
            open(os.path.join(d, f), "w").write(s)
            if plant.tests(d):
                continue
            done += 1
            todo = [p["id"] for p in props if f in p["anchors"]["files"]]
            todo.sort(key=lambda p: p in ("C17", "C24", "C10", "C18"))
            rec["killed"] = None
            rec["rcs"] = {}
            for p in todo:
                r = plant.sh([os.path.join(VERIF, "check"), p], VERIF, VERIF_REPO=d, VERIF_OUT=d, VERIF_NOSHRINK="1")
                rec["rcs"][p] = r.returncode
                if r.returncode == 1:
                    rec["killed"] = p
                    break
                if r.returncode == 2:
                    rec["err"] = r.stdout[-300:]
        finally:
            shutil.rmtree(d)
        with open(out, "a") as g:
            g.write(json.dumps(rec) + "\n")


main()
