"""The iteration log holds one row per finished sweep, with its errors, and survives a crash."""
from side import G, W, np, st, composite
import os
import sqlite3

N = {"quick": 140, "thorough": 4000}
RULE = ("Random models, powers, dampings and starting iteration numbers; the logged rows are compared with an unlogged twin "
        "run whose errors are computed by textbook formulas, with earlier rows present, with the process dying (or the model "
        "raising) inside a random sweep, and with a continued run. Non-trivial: at least 2 sweeps, and a crash, an earlier "
        "row or a power or damping different from 1.")


@composite
def case(draw, tier):
    kind = draw(st.sampled_from(["plain", "plain", "components"]))
    n = draw(st.integers(1, 4))
    settled = draw(st.integers(0, 4)) == 4  # sweeps go on after the beliefs have settled
    spec = draw(G.model(dmax=3, h_time=False, control=False, linear=settled, d=5 if kind == "components" else None))
    return {"kind": kind, "model": spec, "y": draw(G.measurements(n, spec["m"])), "x": draw(G.mat(n, spec["d"], -4, 4)), "far": draw(st.sampled_from([1, 1e3, 1e7, 1e10] if settled else [1, 1, 1, 1, 1e3, 1e7, 1e10])),
            "lost": draw(st.sampled_from([None] * 7 + [0])), "t": draw(st.one_of(G.transform(), *[st.just({"kind": "MCT", "samples": 60})] * (not settled))), "power": draw(G.powers()), "damping": 1 if settled else draw(G.dampings()),
            "iters": draw(st.integers(8, 30) if settled else st.integers(0, 5)), "first": draw(st.sampled_from([0, 0, 3, 50, 1000])), "seed": draw(st.integers(0, 9999)),
            "crash": draw(st.one_of(st.none(), G.num(0, 1))), "how": draw(st.sampled_from(["die", "raise"])),
            "old": draw(st.one_of(st.none(), st.integers(1, 6))), "truth": draw(st.sampled_from([True, True, True, False])),
            "more": draw(st.integers(0, 2)), "print": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def examples():
    one = {"low": [[]], "diag": [1.0], "e": [0.0]}
    spec = {"d": 1, "m": 1, "A": [[0.9]], "b": [0.3], "H": [[1.1]], "c": [0.0], "fk": "none", "hk": "none", "Q": one, "R": one, "m0": [0.5],
            "P0": one, "dt": 1, "style": "vec"}
    base = {"kind": "plain", "model": spec, "y": [[0.4], [1.2]], "x": [[3.0], [-2.0]], "t": {"kind": "TT"}, "power": 0.5, "damping": 0.8, "iters": 60,
            "first": 0, "seed": 5, "crash": None, "how": "raise", "old": None, "truth": True, "more": 1, "print": False}
    return [dict(base, far=1), dict(base, far=1e7), dict(base, far=1, iters=120, crash=0.9)]


class Crash(Exception):
    pass


def errors(means, covs, xs):
    """Textbook root mean squared distance and mean negative log density."""
    se, nll = [], []
    for m, P, x in zip(means, covs, xs):
        r = x - m
        se.append(r @ r)
        s, ld = np.linalg.slogdet(P)
        nll.append(0.5 * (len(m) * np.log(2 * np.pi) + ld + r @ np.linalg.solve(P, r)))
    return np.sqrt(np.mean(se)), np.mean(nll)


PARTS = {"position": [0, 2], "velocity": [1, 3], "angle": [4]}


def check(c, ctx):
    import ExpectationPropagation.Iterations as I
    import Experiments.EP_Sweep_BearingsOnly as BO
    import Utils.Database as D
    mod = W.Model(c["model"])
    n, comp = len(c["y"]), c["kind"] == "components"
    E, run = (BO, BO.ep_iterations) if comp else (D, I.ep_iterations)
    xs = [W.arr(x)[None, :] * c["far"] for x in c["x"]]
    if c.get("lost") is not None:  # one true state is unknown
        xs[c["lost"]] = xs[c["lost"]] * np.nan
        ctx.label("unknown true state")
    path = os.path.join(W.SCRATCH, "c23.db")
    for suffix in ("", "-journal", "-wal", "-shm"):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)
    conn = D.open_database(path)
    E.create_experiment_table(conn.cursor(), table_name="LOG")
    conn.commit()
    tn = "T%s" % c["t"]["kind"]

    def record(it=None, rmse=0.0, nll=0.0, quantity=None):
        kw = dict(Transform=tn, Seed=c["seed"], Iter=c["first"] if it is None else it, Power=c["power"], Damping=c["damping"], RMSE=rmse, NLL=nll)
        if comp:
            return BO.Exp_Data(Quantity=quantity, **kw)
        return D.Exp_Data(Mean=0.0, Variance=0.0, Nodes=[], **kw)

    old = {}
    if c["old"] is not None:
        for q in (("position", "angle") if comp else (None,)):
            it = c["first"] + c["old"]
            row = record(it, 123.5, -7.25, q)._asdict()
            row.pop("Nodes", None)
            E.insert_experiment_data(conn.cursor(), "LOG", row)
            old[(q, float(it))] = (123.5, -7.25)
        conn.commit()
    count = [0]
    limit = [None]

    def graph(crash):
        system = mod.system()
        f = system.transition

        def transition(x, t=None, u=None):
            if crash:
                count[0] += 1
                if limit[0] is not None and count[0] >= limit[0]:
                    if c["how"] == "die":
                        os._exit(9)
                    raise Crash()
            return f(x, t=t, u=u)
        system.transition = transition
        tt = W.make_transform(c["t"], mod.d)
        return W.build_graph(mod, system, tt, tt, c["y"], c["power"], c["damping"], style="row")

    # the twin: sweeps without any log
    twin = graph(False)
    np.random.seed(c["seed"])
    want = dict(old)
    states = []
    calls = [0]
    for k in range(c["iters"]):
        I.ep_fwd_back_updates(twin)
        means = [np.asarray(x.marginal.mean, float) for x in twin]
        covs = [np.asarray(x.marginal.cov, float) for x in twin]
        if any(W.cond(P) > 1e7 or not np.all(np.isfinite(P)) for P in covs):
            ctx.label("ill conditioned")
            return
        states.append((means, covs))
        if c["truth"]:
            for q in (PARTS if comp else (None,)):
                ix = PARTS[q] if q else list(range(mod.d))
                v = errors([m[ix] for m in means], [P[np.ix_(ix, ix)] for P in covs], [x[0, ix] for x in xs])
                want.setdefault((q, float(c["first"] + k + 1)), v)

    def rows(cn):
        out = {}
        cols = "Transform, Seed, Power, Damping, Iter, RMSE, NLL" + (", Quantity" if comp else "")
        for r in cn.execute("SELECT %s FROM LOG" % cols):
            W.require(r[:4] == (tn, c["seed"], float(c["power"]), float(c["damping"])), "a row is filed under %s", r[:4])
            key = (r[7] if comp else None, r[4])
            W.require(key not in out, "two rows for %s", key)
            out[key] = r[5:7]
        return out

    def compare(what, got, want):
        W.require(set(got) == set(want), "%s: rows %s, expected %s", what, sorted(map(str, got)), sorted(map(str, want)))
        for k in want:
            for a, b, name in zip(got[k], want[k], ("RMSE", "NLL")):
                if np.isnan(b):  # the database has no other word for it
                    W.require(a is None or np.isnan(a), "%s: %s of %s is %r though a true state is not a number", what, name, k, a)
                    continue
                W.require(isinstance(a, float), "%s: %s of %s is %r", what, name, k, a)
                W.close("%s: %s of %s" % (what, name, k), np.asarray(a), np.asarray(b), 1e-7, 1e-7)

    crash = None
    if c["crash"] is not None and c["iters"]:
        # evaluations of the motion made by each sweep, counted on another twin
        counter = [0]
        per = []
        probe_sys = mod.system()
        g = probe_sys.transition

        def counted(x, t=None, u=None):
            counter[0] += 1
            return g(x, t=t, u=u)
        probe_sys.transition = counted
        tt = W.make_transform(c["t"], mod.d)
        probe = W.build_graph(mod, probe_sys, tt, tt, c["y"], c["power"], c["damping"], style="row")
        np.random.seed(c["seed"])
        for k in range(c["iters"]):
            I.ep_fwd_back_updates(probe)
            per.append(counter[0])
        crash = 1 + int(c["crash"] * (per[-1] - 1))
    nodes = graph(True)
    kw = dict(max_iter=c["iters"], conn=conn, x_true=xs if c["truth"] else None, exp_data=record(), table_name="LOG", print_result=c["print"])
    finished = c["iters"]
    if crash:
        limit[0] = crash
        if c["how"] == "die":
            conn.close()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    other = D.open_database(path)
                    np.random.seed(c["seed"])
                    run(nodes, **dict(kw, conn=other))
                    rc = 0
                finally:
                    os._exit(rc)
            status = os.waitpid(pid, 0)[1]
            code = os.WEXITSTATUS(status)
            W.require(code in (0, 9), "the logged run failed")
            died = code == 9
            conn = D.open_database(path)
        else:
            np.random.seed(c["seed"])
            died = False
            try:
                run(nodes, **kw)
            except Crash:
                died = True
        if died:
            finished = sum(1 for p in per if p < crash)
            ctx.label("died in sweep %d" % (finished + 1) if c["how"] == "die" else "raised in sweep %d" % (finished + 1))
        limit[0] = None
    else:
        np.random.seed(c["seed"])
        run(nodes, **kw)
    last = c["first"] + finished
    part = {k: v for k, v in want.items() if k[1] <= last or k in old}
    second = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    compare("committed log", rows(second), part)
    second.close()
    if finished == c["iters"] and not (crash and c["how"] == "die") and states:
        for i, x in enumerate(nodes):
            W.close_state("node %d after the logged run" % i, x.marginal, states[-1][0][i], states[-1][1][i], 1e-8, 1e-8)
    # running again adds what is missing and changes nothing that is there
    if c["more"]:
        conn.rollback()
        for i in range(c["more"]):
            np.random.seed(c["seed"])
            run(graph(False), **dict(kw, conn=conn))
            compare("log after running again", rows(conn), want)
    conn.close()
    ctx.label(c["kind"], "truth" if c["truth"] else "no truth", "earlier row" if old else "fresh")
    ctx.nontrivial(c["iters"] >= 2 and (crash or old or c["power"] != 1 or c["damping"] != 1))
