"""An experiment sweep records exactly the configured runs, resumes, and replaces only when told to."""
from side import G, W, np, st, composite
import os
import sqlite3

SHARDS = 8
N = {"quick": 90, "thorough": 1500}
RULE = ("Random experiment configurations (seeds, moment matchings, powers, dampings, iterations, small random systems) for "
        "both sweep drivers, run in one go, in parts, after a crash, again, and with override over doctored rows; plus the "
        "command line. The trajectories and every recorded error are compared with an independent run of the pipeline per "
        "configuration. Non-trivial: at least 2 configurations and a second run.")
ASSUMPTIONS = ["runs with Monte Carlo moment matching are compared for their keys only when they are not the first of their "
               "seed, because they draw from the same random stream as the runs before them"]


@composite
def case(draw, tier):
    kind = draw(st.sampled_from(["plain", "plain", "components"]))
    spec = draw(G.model(dmax=2, mmax=2, dtop=4, mtop=4, h_time=False, control=False, d=5 if kind == "components" else None,
                          style="row" if kind == "components" else None))
    ids = draw(st.lists(st.sampled_from(["TT", "UT", "UT", "MCT"]), min_size=1, max_size=2, unique=True))
    long = draw(st.integers(0, 3)) == 3 and kind == "plain" and "MCT" not in ids
    axis = draw(st.integers(0, 1))
    return {"kind": kind, "model": spec, "n": 2 if long else draw(st.integers(1, 4)),
            "seeds": draw(st.lists(st.integers(0, 2 ** 31 - 1), min_size=1, max_size=2, unique=True)), "ids": ids,
            "powers": draw(st.lists(st.sampled_from([1.0, 0.5, 0.30000000000000004, 0.8]), min_size=1, max_size=2, unique=True) if not (long and axis == 0) else
                           st.sampled_from([[0.25, 0.24], [0.3, 0.30000000000000004], [0.8, 0.75], [0.30000000000000004, 0.3], [1.0, 0.99]])),
            "dampings": draw(st.lists(st.sampled_from([1.0, 0.8, 0.4]), min_size=1, max_size=2, unique=True) if not (long and axis == 1) else
                             st.sampled_from([[0.85, 0.8], [0.99, 1.0], [1.0, 0.8], [0.7, 0.7000000000000001]])),
            "iters": 50 if long else draw(st.integers(1, 3)),
            "second": draw(st.sampled_from(["none", "again", "override", "doctored", "doctored override", "resume", "extend", "failing"])),
            "first_override": draw(st.integers(0, 3)) == 3, "crash": draw(G.num(0, 1)), "numpy": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def examples():
    cli = [{"cli": "UNGM", "seed": 7, "id": "UT"}, {"cli": "UNGM", "seed": 31, "also": 6, "id": "TT", "override": True}, {"cli": "turn", "seed": 7, "also": 101, "id": "UT", "override": True}, {"cli": "BOT", "seed": 5, "id": "UT"},
           {"cli": "BOTT", "seed": 9, "id": "UT"}]
    if os.environ.get("VERIF_TIER") == "thorough":
        cli += [{"cli": "BOT", "seed": 8, "id": "UT"}, {"cli": "UNGM", "seed": 3, "id": "MCT", "override": True}, {"cli": "turn", "seed": 7, "id": "UT"},
                {"cli": "BOTT", "seed": 101, "id": "TT"}, {"cli": "BOT", "seed": 4, "id": "TT"}]
    one = {"low": [[]], "diag": [1.0], "e": [0.0]}
    spec = {"d": 1, "m": 1, "A": [[0.9]], "b": [0.3], "H": [[1.1]], "c": [0.0], "fk": "sin", "hk": "none", "Q": one, "R": one, "m0": [0.5],
            "P0": one, "dt": 1, "style": "vec", "B": [[0.8]], "fa": 0.7}
    two = dict(spec, d=5, A=[[0.9 * (i == j) for j in range(5)] for i in range(5)], b=[0.3] * 5, H=[[1.1, 0, 0, 0.2, 0.1]],
               Q={"low": [[0.1] * i for i in range(5)], "diag": [1.0] * 5, "e": [0.0] * 5}, m0=[0.5] * 5,
               P0={"low": [[0.0] * i for i in range(5)], "diag": [1.0] * 5, "e": [0.0] * 5}, style="row", B=[[0.4 * (i == j) for j in range(5)] for i in range(5)])
    for kind in ("plain", "components"):
        for order in (1, -1):
            cli.append({"kind": kind, "model": two if kind == "components" else spec, "n": 2, "seeds": [3, 4][::order], "ids": ["UT", "TT"][::order],
                        "powers": [1.0, 0.5][::order], "dampings": [0.8, 1.0][::order], "iters": 2, "second": "doctored override",
                        "first_override": order < 0, "crash": 0, "numpy": False})
    for powers, dampings, ids in (([1.0, 0.99, 0.999], [1.0], ["UT"]), ([0.30000000000000004, 0.3], [0.8, 0.80000000000001], ["TT"]),
                                  ([0.8, 0.75], [0.85, 0.8], ["UT"]), ([0.1, 0.11], [0.9999, 1.0], ["TT"]),
                                  ([1.0, 0.5], [1.0, 0.8], ["UT", "TT"])):
        cli.append({"kind": "plain", "model": spec, "n": 2, "seeds": [12, 120], "ids": ids, "powers": powers, "dampings": dampings, "iters": 50,
                    "second": "again", "first_override": False, "crash": 0, "numpy": len(powers) == 3})
    cli.append({"kind": "plain", "model": spec, "n": 2, "seeds": [2, 9], "ids": ["TT"], "powers": [0.7], "dampings": [0.8], "iters": 63,
                "second": "again", "first_override": False, "crash": 0, "numpy": False})
    cli.append({"kind": "components", "model": two, "n": 2, "seeds": [12], "ids": ["TT"], "powers": [1.0, 0.5], "dampings": [1.0, 0.8], "iters": 50,
                "second": "again", "first_override": False, "crash": 0, "numpy": False})
    return cli


PARTS = {"position": [0, 2], "velocity": [1, 3], "angle": [4]}


class Crash(BaseException):
    pass


def fresh(path):
    for suffix in ("", "-journal", "-wal", "-shm"):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)


def errors(means, covs, xs):
    se, nll = [], []
    for m, P, x in zip(means, covs, xs):
        r = x - m
        se.append(r @ r)
        s, ld = np.linalg.slogdet(P)
        nll.append(0.5 * (len(m) * np.log(2 * np.pi) + ld + r @ np.linalg.solve(P, r)))
    return np.sqrt(np.mean(se)), np.mean(nll)


def pipeline(system, dim, n, seed, tid, power, damping, iters, comp, data=None):
    """What the sweep should record for one configuration; None when its numbers are not reproducible."""
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform
    from MomentMatching.Estimator import Estimator
    if tid == "MCT":
        a, b = MonteCarloTransform(dim=dim, number_of_samples=10000), MonteCarloTransform(dim=dim, number_of_samples=10000)
        np.random.seed(seed)
        system.simulate(n)  # the sweep goes on in the random stream of the simulation
    elif tid == "TT":
        a = b = TaylorTransform(dim=dim)
    else:
        a, b = UnscentedTransform(dim=dim, alpha=1, beta=2, kappa=3), UnscentedTransform(dim=dim, alpha=1, beta=2, kappa=2)
    xs, ys = zip(*data)
    est = Estimator(trans_map=a, meas_map=b, trans_noise=system.transition_noise.cov, meas_noise=system.measurement_noise.cov,
                    power=power, damping=damping)
    nodes = node_system(node_estimator(build_nodes(n, dim), est), system, ys)
    out = {}
    for k in range(iters):
        ep_fwd_back_updates(nodes)
        means = [np.asarray(x.marginal.mean, float) for x in nodes]
        covs = [np.asarray(x.marginal.cov, float) for x in nodes]
        for q in (PARTS if comp else (None,)):
            ix = PARTS[q] if q else list(range(dim))
            bad = any(not np.all(np.isfinite(P)) or W.min_eig(P) <= 0 or W.cond(P) > 1e7 for P in covs) or \
                any(np.abs(m).max() > 1e6 for m in means)
            out[(q, float(k + 1))] = None if bad else errors([m[ix] for m in means], [P[np.ix_(ix, ix)] for P in covs],
                                                              [np.ravel(x)[ix] for x in xs])
    return out


def read(path, exp, comp):
    conn = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    out = {}
    for r in conn.execute("SELECT Transform, Seed, Power, Damping, Iter, RMSE, NLL%s FROM %s" % (", Quantity" if comp else "", exp)):
        key = r[:4] + ((r[7] if comp else None), r[4])
        W.require(key not in out, "two rows for %s", key)
        out[key] = r[5:7]
    conn.close()
    return out


def check_rows(what, got, want):
    W.require(set(got) == set(want), "%s: rows that should not be there %s, rows missing %s", what, sorted(map(str, set(got) - set(want)))[:4],
              sorted(map(str, set(want) - set(got)))[:4])
    for k, v in want.items():
        if v is not None:
            for a, b, name in zip(got[k], v, ("RMSE", "NLL")):
                W.require(isinstance(a, float), "%s: %s of %s is %r", what, name, k, a)
                W.close("%s: %s of %s" % (what, name, k), np.asarray(a), np.asarray(b), 1e-5, 1e-6)


def check_data(path, table, data):
    conn = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
    got = {(s, t): (x, y) for s, t, x, y in conn.execute("SELECT Seed, t, X, Y FROM %s" % table)}
    n = conn.execute("SELECT COUNT(*) FROM %s" % table).fetchone()[0]
    conn.close()
    want = {(s, float(t)): xy for s, d in data.items() for t, xy in enumerate(d)}
    W.require(set(got) == set(want) and n == len(want), "saved trajectories: %s rows under %s, expected %s", n, sorted(got)[:5], sorted(want)[:5])
    for k in want:
        for a, b in zip(got[k], want[k]):
            W.close("saved trajectory at %s" % (k,), np.asarray(a), np.asarray(b), 1e-9, 1e-12)


def check_cli(c, ctx):
    import Experiments.EP_FullSweep as full
    import Experiments.EP_Sweep_BearingsOnly as BO
    import Systems
    from click.testing import CliRunner
    comp = c["cli"] == "turn"
    path = os.path.join(W.SCRATCH, "cli.db")
    fresh(path)
    args = ["--logdir", path, "-s", str(c["seed"]), "-t", c["id"], "-i", "1"]
    seeds = [c["seed"]]
    if "also" in c:
        seeds.append(c["also"])
        args += ["-s", str(c["also"])]
    if not comp:
        args += ["-d", c["cli"]]
    def invoke(args):
        res = CliRunner().invoke((BO if comp else full).main, args)
        if res.exception is not None and not isinstance(res.exception, SystemExit):
            W.require(False, "command line failed: %r", res.exception)
        W.require(res.exit_code == 0, "command line failed: %s", res.output[-300:])

    invoke(args)
    make, dim, n, name = {"UNGM": (Systems.UniformNonlinearGrowthModel, 1, 100, "UNGM"), "BOT": (Systems.BearingsOnlyTracking, 4, 50, "BOT"),
                          "BOTT": (Systems.BearingsOnlyTrackingTurn, 5, 50, "BOTT"), "turn": (Systems.BearingsOnlyTrackingTurn, 5, 50, "BOTT")}[c["cli"]]
    system = make()
    data, want = {}, {}
    for seed in seeds:
        np.random.seed(seed)
        data[seed] = system.simulate(n)
        for p in np.linspace(0.1, 1.0, num=10):
            for d in (1.0, 0.8):
                for q in (PARTS if comp else (None,)):
                    want[(c["id"], seed, float(p), d, q, 1.0)] = None
        if c["id"] != "MCT":
            for k, v in pipeline(system, dim, n, seed, c["id"], 1.0, 1.0, 1, comp, data[seed]).items():
                want[(c["id"], seed, 1.0, 1.0) + k] = v
    check_data(path, name + "_SIM", data)
    got = read(path, name + "_EXP", comp)
    check_rows("command line", got, want)
    # again over doctored rows: kept unless told to override
    conn = sqlite3.connect(path)
    conn.execute("UPDATE %s_EXP SET RMSE = 4321.0" % name)
    conn.commit()
    conn.close()
    invoke(args + (["--override"] if c.get("override") else []))
    again = read(path, name + "_EXP", comp)
    if c.get("override"):
        check_rows("command line with override", again, want)
        W.require(not any(v[0] == 4321.0 for v in again.values()), "override kept a saved row")
    else:
        W.require(set(again) == set(got) and all(v[0] == 4321.0 for v in again.values()), "a second run without override replaced saved rows")
    ctx.label("command line")
    ctx.nontrivial()


def check(c, ctx):
    if "cli" in c:
        return check_cli(c, ctx)
    import Experiments.EP_FullSweep as full
    import Experiments.EP_Sweep_BearingsOnly as BO
    import Utils.Database as D
    comp = c["kind"] == "components"
    mod = W.Model(c["model"])
    mod.A = 0.6 * mod.A
    E = BO if comp else full
    path = os.path.join(W.SCRATCH, "c24.db")
    fresh(path)
    num = np.float64 if c["numpy"] else float
    powers, dampings = [num(p) for p in c["powers"]], [num(d) for d in c["dampings"]]
    seeds = [np.int64(s) if c["numpy"] else s for s in c["seeds"]]
    calls, limit = [0], [None]
    reads, bad = [0], [None]
    from StateModel import Gaussian
    real_nll = Gaussian.nll

    def nll(self, *a, **k):
        reads[0] += 1
        if reads[0] == bad[0]:
            raise np.linalg.LinAlgError("injected")
        return real_nll(self, *a, **k)

    def system():
        s = mod.system()
        f = s.transition

        def transition(x, t=None, u=None):
            calls[0] += 1
            if limit[0] is not None and calls[0] > limit[0]:
                raise Crash()
            return f(x, t=t, u=u)

        s.transition = transition
        return s

    def run(seeds_, iters, override=False, fail=None):
        conn = D.open_database(path)
        cur = conn.cursor()
        D.create_dynamics_table(cur, name="SIM")
        E.create_experiment_table(cur, table_name="EXP")
        calls[0], limit[0] = 0, fail
        reads[0] = 0
        config = full.Config(con=conn, system=system(), timesteps=c["n"], sys_dim=mod.d, num_iter=iters, dyn_table_name="SIM", exp_table_name="EXP")
        died = False
        Gaussian.nll = nll
        try:
            E.full_sweep(config, seeds_, c["ids"], powers, dampings, override) if override else E.full_sweep(config, seeds_, c["ids"], powers, dampings)
        except Crash:
            died = True
        finally:
            Gaussian.nll = real_nll
            limit[0] = None
            conn.close()  # without a commit: whatever the sweep has not committed is gone
        return died

    data, want = {}, {}
    iters = c["iters"]
    total = iters + 1 if c["second"] == "extend" and iters < 50 else iters
    for s in c["seeds"]:
        raw = mod.system()
        np.random.seed(s)
        data[s] = raw.simulate(c["n"])
        for tid in c["ids"]:
            for p in c["powers"]:
                for dmp in c["dampings"]:
                    if tid == "MCT" and (p, dmp) != (c["powers"][0], c["dampings"][0]):
                        for k in range(total):
                            for q in (PARTS if comp else (None,)):
                                want[(tid, s, p, dmp, q, float(k + 1))] = None
                    else:
                        for k, v in pipeline(raw, mod.d, c["n"], s, tid, p, dmp, total, comp, data[s]).items():
                            want[(tid, s, p, dmp) + k] = v
    configs = len(c["seeds"]) * len(c["ids"]) * len(powers) * len(dampings)
    second = c["second"]
    ctx.label(c["kind"], "second run: " + second, "50 iterations" if iters == 50 else "short")
    ctx.nontrivial(configs >= 2 and second != "none")
    early = {k: v for k, v in want.items() if k[-1] <= iters}
    if second == "resume":
        run(seeds, iters, fail=None)
        n_calls = calls[0]
        fresh(path)
        died = run(seeds, iters, fail=max(1, int(c["crash"] * n_calls)))
        ctx.label("crashed" if died else "not crashed")
        part = read(path, "EXP", comp)
        W.require(set(part) <= set(early), "after a crash: unexpected rows %s", sorted(map(str, set(part) - set(early)))[:4])
        run(seeds, iters)
        check_rows("resumed after a crash", read(path, "EXP", comp), early)
        check_data(path, "SIM", data)
        return
    if second == "failing":
        run(seeds, iters)
        total_reads = reads[0]
        fresh(path)
        bad[0] = 1 + int(c["crash"] * max(0, total_reads - 1))
        stopped = None
        try:
            run(seeds, iters)
        except np.linalg.LinAlgError as e:
            stopped = e
        bad[0] = None
        W.require(stopped is None, "one configuration that fails stopped the sweep: %r", stopped)
        part = read(path, "EXP", comp)
        gone = {k[:4] for k in set(early) - set(part)}
        W.require(len(gone) <= 1, "one configuration that fails cost the results of %s", sorted(gone))
        check_rows("with a failing configuration", part, {k: v for k, v in early.items() if k in part})
        ctx.label("one failed" if gone else "none failed")
        run(seeds, iters)
        check_rows("run again after a failing configuration", read(path, "EXP", comp), early)
        check_data(path, "SIM", data)
        return
    run(seeds, iters, override=c["first_override"])
    first = read(path, "EXP", comp)
    check_rows("first run", first, early)
    check_data(path, "SIM", data)
    if second == "none":
        return
    doctored = {}
    if second.startswith("doctored"):
        conn = sqlite3.connect(path)
        conn.execute("UPDATE EXP SET RMSE = 4321.0, NLL = -77.0")
        conn.commit()
        conn.close()
        doctored = {k: (4321.0, -77.0) for k in first}
    run(seeds, total, override=second.endswith("override"))
    if iters >= 50 and second in ("again", "doctored"):  # every configuration is recorded up to the fiftieth sweep
        W.require(calls[0] == len(seeds) * c["n"], "finished configurations were run again: %d evaluations of the motion for %d simulated steps",
                  calls[0], len(seeds) * c["n"])
        ctx.label("nothing left to run")
    got = read(path, "EXP", comp)
    if second == "doctored":
        check_rows("second run over saved rows", got, doctored)
    elif second in ("again", "extend"):
        check_rows("second run", {k: got[k] for k in got if k in first}, first)
        check_rows("second run", got, want)
    else:
        check_rows("second run with override", got, want)
        if second == "doctored override":
            W.require(not any(v[0] == 4321.0 for v in got.values()), "override kept a saved row")
    check_data(path, "SIM", data)
