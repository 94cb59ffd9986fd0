"""The iterated-smoother and Lorenz 96 experiments record what they ran."""
from side import G, W, np, st, composite
import contextlib
import gc
import glob
import io
import os
import re
import runpy
import sqlite3

N = {"quick": 36, "thorough": 700}
RULE = ("The experiment scripts for the iterated smoother (growth model, turning target, Lorenz 96) and for EP on Lorenz 96, run as "
        "scripts on shortened trajectories with generated seeds and Lorenz starts, over empty or partly filled stores, again over their own "
        "results, and stopped at a random point; every row is compared with the same experiment done independently from its seed, "
        "with errors by textbook formulas. Non-trivial: at least two runs recorded and a stop, a second run or earlier rows.")
ASSUMPTIONS = ["trajectories are cut to 2-5 steps, Lorenz 96 to the first dozen runs, the iterated smoother to at most 3 iterations and Monte Carlo matching to 200 samples by wrapping the classes' methods; the scripts "
               "themselves are run unchanged"]
SCRIPTS = {"UNGM": ("IEKS_Sweep_UNGM", "IEKS_ungm.db", "UNGM_EXP"), "BOTT": ("IEKS_Sweep_BearingsOnly", "IEKS_bott.db", "BOTT_EXP"),
           "L96": ("IEKS_Sweep_L96", "IEKS_L96.db", "L96_EXP"), "EP": ("EP_Sweep_L96", "L96_dim_experiment_3.db", "L96_EXP")}
SCHEMA = {"UNGM": "Seed INT, Iter REAL, RMSE REAL, NLL REAL, UNIQUE (Seed, Iter)",
          "BOTT": "Quantity TEXT, Seed INT, Iter REAL, RMSE REAL, NLL REAL, UNIQUE (Quantity, Seed, Iter)",
          "L96": "dim INT, Seed INT, Iter REAL, RMSE REAL, NLL REAL, UNIQUE (dim, Seed, Iter)",
          "EP": "Transform TEXT, Seed INT, dim INT, Iter REAL, Power REAL, Damping REAL, RMSE REAL, NLL REAL, "
                "UNIQUE (Transform, Seed, dim, Iter, Power, Damping)"}
COLS = {"UNGM": "Seed, Iter", "BOTT": "Quantity, Seed, Iter", "L96": "dim, Seed, Iter", "EP": "Transform, Seed, dim, Iter, Power, Damping"}
PARTS = {"position": [0, 2], "velocity": [1, 3], "angle": [4]}


@composite
def case(draw, tier):
    which = draw(st.sampled_from(["UNGM", "UNGM", "UNGM", "BOTT", "BOTT", "BOTT", "L96", "L96", "EP"]))
    return {"which": which, "steps": draw(st.sampled_from([2, 2, 3, 3, 5])), "iters": draw(st.sampled_from([1, 2, 2, 3])),
            "offset": draw(st.integers(0, 10 ** 6)), "trans": draw(st.sampled_from(["MCT", "UT", "TT"])) if which == "EP" else "MCT", "start": draw(G.vec(8, 1, 4)),
            "stop": draw(st.sampled_from([100, 200, 310, 500, 800, 1700, 1800, 3400] + [4700] * (tier == "thorough"))) if which == "EP" else draw(st.sampled_from([1, 2, 2, 3, 4, 6, 9, 10, 11, 12, None] if which != "L96" else [1, 2, 3, 11, 12])),
            "earlier": draw(st.lists(st.integers(0, 9), max_size=3, unique=True)), "again": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def examples():
    base = {"which": "EP", "trans": "MCT", "steps": 2, "iters": 1, "offset": 5, "start": [1.0, 2.0, 3.0, 2.5, 3.5, 1.5, 2.0, 3.0], "earlier": [], "again": False}
    return [dict(base, stop=3300), dict(base, trans="UT", stop=1900), dict(base, which="L96", stop=None)]


class Stop(BaseException):
    pass


def errors(states, xs, ix):
    se, nll = [], []
    for g, x in zip(states, xs):
        m, P = np.ravel(g.mean)[ix], np.asarray(g.cov, float)[np.ix_(ix, ix)]
        if not np.all(np.isfinite(P)) or W.min_eig(P) <= 0 or W.cond(P) > 1e7 or np.abs(m).max() > 1e5:
            return None
        r = np.ravel(x)[ix] - m
        se.append(r @ r)
        nll.append(0.5 * (len(m) * np.log(2 * np.pi) + np.linalg.slogdet(P)[1] + r @ np.linalg.solve(P, r)))
    return np.sqrt(np.mean(se)), np.mean(nll)


def check(c, ctx):
    import Systems
    from Systems.DynamicSystem import DynamicSystemModel
    from Filters.KalmanFilter import IEKS
    from MomentMatching import MonteCarloTransform, UnscentedTransform, TaylorTransform
    from MomentMatching.Estimator import Estimator
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    which = c["which"]
    script, db, table = SCRIPTS[which]
    file = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "Experiments", script + ".py")
    trans = c["trans"]
    if trans != "MCT":  # the experiment as its user sets it up for the other moment matchings
        with open(file) as f:
            src = f.read()
        new = re.sub(r"(?m)^trans_id = .*$", "trans_id = '%s'" % trans, src)
        if new == src:
            trans = "MCT"
        else:
            file = os.path.join(W.SCRATCH, "own_" + script + ".py")
            with open(file, "w") as f:
                f.write(new)
    matching = {"MCT": MonteCarloTransform, "UT": UnscentedTransform, "TT": TaylorTransform}[trans]
    log = os.path.join(W.SCRATCH, "log")
    for p in glob.glob(os.path.join(log, "*")):
        os.remove(p)
    for d in (5, 10, 20, 40):
        np.save(os.path.join(log, "L96_initial_condition_F_8_dim_%d.npy" % d), np.resize(np.array(c["start"]), d) + 0.01 * np.arange(d))
    path = os.path.join(log, db)
    real_init, real_mc, own = MonteCarloTransform.__init__, matching.__call__, "__call__" in vars(matching)
    calls = [0]

    @contextlib.contextmanager
    def cheap():
        """Monte Carlo matching with few samples that stops the experiment after a given number of uses."""
        calls[0] = 0
        MonteCarloTransform.__init__, matching.__call__ = init, transform
        try:
            yield
        finally:
            MonteCarloTransform.__init__ = real_init
            if own:
                matching.__call__ = real_mc
            else:
                del matching.__call__

    real_sim, real_call, real_seed = DynamicSystemModel.simulate, IEKS.__call__, np.random.seed
    runs, asked = [], []     # (seed, dimension) of every simulation begun, iterations asked of the smoother

    def seed_(seed=None):
        runs.append([seed, None])
        real_seed((int(seed) + c["offset"]) % 2 ** 32)

    def simulate(self, N, *a, **k):
        W.require(runs and runs[-1][1] is None, "a simulation is started without setting the seed before it")
        runs[-1][1] = self.system_dim
        if limit is not None and which != "EP" and len(runs) > limit:
            raise Stop()
        return real_sim(self, N if which == "EP" else min(N, c["steps"]), *a, **k)

    def init(self, *a, **k):
        if "number_of_samples" in k:
            k["number_of_samples"] = min(k["number_of_samples"], 200)
        real_init(self, *a, **k)

    def transform(self, *a, **k):
        calls[0] += 1
        if calls[0] > c["stop"]:
            raise Stop()
        return real_mc(self, *a, **k)

    def call(self, measurements, num_iter=5, *a, **k):
        asked.append(num_iter)
        return real_call(self, measurements, *a, num_iter=min(num_iter, c["iters"]), **k)

    def run(stop):
        nonlocal limit
        limit = stop
        runs[:], asked[:] = [], []
        DynamicSystemModel.simulate, IEKS.__call__, np.random.seed = simulate, call, seed_
        stopped = False
        try:
            with contextlib.redirect_stdout(io.StringIO()), cheap() if which == "EP" else contextlib.nullcontext():
                runpy.run_path(file, run_name="__main__")
        except Stop:
            stopped = True
        finally:
            DynamicSystemModel.simulate, IEKS.__call__, np.random.seed = real_sim, real_call, real_seed
        gc.collect()
        return stopped

    limit = None

    def read():
        conn = sqlite3.connect(path)
        out = {}
        for r in conn.execute("SELECT %s, RMSE, NLL FROM %s" % (COLS[which], table)):
            W.require(r[:-2] not in out, "two rows for %s", r[:-2])
            out[r[:-2]] = r[-2:]
        conn.close()
        return out

    def key(part, dim, seed, it):
        return {"UNGM": (seed, it), "BOTT": (part, seed, it), "L96": (dim, seed, it)}[which]

    def expected(done, iters):
        want = {}
        try:
            with cheap() if which == "EP" else contextlib.nullcontext():
                replay(want, done, iters)
        except Stop:
            pass
        return want

    def replay(want, done, iters):
        for (seed, dim) in done:
            fname = os.path.join(log, "L96_initial_condition_F_8_dim_%d.npy" % dim)
            system = Systems.UniformNonlinearGrowthModel() if which == "UNGM" else Systems.BearingsOnlyTrackingTurn() if which == "BOTT" \
                else Systems.L96(dim=dim, init_cond_path=fname)
            real_seed((int(seed) + c["offset"]) % 2 ** 32)
            xs, ys = zip(*real_sim(system, 50 if which == "EP" else c["steps"]))
            if which != "EP":
                res = IEKS(system, dim)(ys, num_iter=c["iters"])
                for part, ix in (PARTS.items() if which == "BOTT" else [(None, list(range(dim)))]):
                    want[key(part, dim, seed, float(iters))] = errors(res, xs, ix)
                continue
            lorenz(want, seed, dim, system, xs, ys)

    def lorenz(want, seed, dim, system, xs, ys):
        for power in (1.0, 0.8, 0.1):
            a, b = (UnscentedTransform(dim=dim, alpha=1, beta=2, kappa=3), UnscentedTransform(dim=dim, alpha=1, beta=2, kappa=2)) if trans == "UT" else \
                [TaylorTransform(dim=dim)] * 2 if trans == "TT" else [MonteCarloTransform(dim=dim, number_of_samples=200) for _ in "ab"]
            est = Estimator(trans_map=a, meas_map=b, trans_noise=system.transition_noise.cov, meas_noise=system.measurement_noise.cov,
                            power=power, damping=1.0)
            nodes = node_system(node_estimator(build_nodes(50, dim), est), system, ys)
            for it in range(10):
                ep_fwd_back_updates(nodes)
                want[(trans, seed, dim, float(it), power, 1.0)] = errors([x.marginal for x in nodes], xs, list(range(dim)))

    def compare(what, got, want):
        W.require(set(got) == set(want), "%s: rows that should not be there %s, rows missing %s", what,
                  sorted(map(str, set(got) - set(want)))[:4], sorted(map(str, set(want) - set(got)))[:4])
        for k, v in want.items():
            if v is not None:
                ctx.label("errors compared")
                for a, b, name in zip(got[k], v, ("RMSE", "NLL")):
                    W.close("%s: %s of %s" % (what, name, k), np.asarray(a, float), np.asarray(b), 1e-5, 1e-6)

    earlier = {}
    if c["earlier"]:
        conn = sqlite3.connect(path)
        conn.execute("CREATE TABLE %s (%s)" % (table, SCHEMA[which]))
        for i in c["earlier"]:
            seed = 101 + 100 * i
            k = ("UT", seed, 5, float(i), 1.0, 1.0) if which == "EP" else key("velocity", 5, seed, 10.0 if which == "L96" else 50.0)
            earlier[k] = (7.5, -3.25)
            conn.execute("INSERT INTO %s (%s, RMSE, NLL) VALUES (%s)" % (table, COLS[which], ", ".join("?" * (len(k) + 2))), k + (7.5, -3.25))
        conn.commit()
        conn.close()
    died = run(c["stop"])
    done = [tuple(r) for r in runs if r[1] is not None]
    if died and which != "EP":
        done = done[:-1]
    W.require(which == "EP" or len(set(done)) == len(done), "a seed is run twice: %s", done)
    W.require(len(set(asked)) <= 1, "different numbers of iterations are asked for: %s", asked)
    want = expected(done, asked[0] if asked else 0)
    want.update(earlier)
    ctx.label(which, trans, "stopped" if died else "complete", "earlier rows" if earlier else "empty store")
    ctx.nontrivial(len(done) >= 2 - (which == "EP") and (died or earlier or c["again"]))
    got = read()
    compare("after the run", got, want)
    if c["again"] and which != "EP":
        died2 = run(None if c["stop"] is None else c["stop"] + 1)
        done2 = [tuple(r) for r in runs if r[1] is not None]
        if died2:
            done2 = done2[:-1]
        again = read()
        for k in got:
            W.require(again.get(k) == got[k], "a second run changed the row of %s from %s to %s", k, got[k], again.get(k))
        want.update({k: v for k, v in expected(done2[len(done):], asked[0] if asked else 0).items() if k not in earlier})
        compare("after a second run", again, want)
        ctx.label("again")
