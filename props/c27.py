"""Runs are repeatable and independent: nothing handed in is changed, nothing is shared."""
from side import G, W, np, st, composite

N = {"quick": 300, "thorough": 4000}
RULE = ("Two random problems that share one estimator, one moment matching and one model object are solved alone and "
        "interleaved at random, with filters, smoothers, iterated versions and EP sweeps; the results must be those of the "
        "separate runs, Monte Carlo runs must repeat under their seed, and measurements, noise covariances, priors and "
        "sigma-point rules must be left as they were. Non-trivial: at least 2 steps, both problems run and at least "
        "4 interleaved pieces.")


@composite
def case(draw, tier):
    spec = draw(G.model(dmax=3, h_time=False))
    n = [draw(st.integers(1, 4)), draw(st.integers(1, 4))]
    return {"model": spec, "y": [draw(G.measurements(k, spec["m"])) for k in n], "t": draw(st.one_of(G.transform(), st.just({"kind": "MCT", "samples": 40}))),
            "power": draw(G.powers()), "damping": draw(G.dampings()), "ystyle": draw(st.sampled_from(["vec", "row"])),
            "stranger": draw(st.one_of(G.model(dmax=3, h_time=False), G.model(d=spec["d"], h_time=False))), "plan": draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(["sweep", "sweep", "kalman", "iekf", "ieks", "nodewise", "simulate", "stranger"])).map(list),
                                  min_size=2, max_size=9))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from Filters.KalmanFilter import KalmanFilterSmoother, IEKF, IEKS
    from ExpectationPropagation.Iterations import ep_fwd_back_updates, ep_update
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from MomentMatching.Estimator import Estimator
    mod = W.Model(c["model"])

    class World:
        """One model, one moment matching, one estimator and one filter of each kind, used by both problems."""
        def __init__(self):
            self.system = mod.system()
            self.t = W.make_transform(c["t"], mod.d)
            self.est = Estimator(trans_map=self.t, meas_map=self.t, trans_noise=self.system.transition_noise.cov,
                                 meas_noise=self.system.measurement_noise.cov, power=c["power"], damping=c["damping"])
            self.kf = KalmanFilterSmoother(self.t, self.system)
            self.iekf = IEKF(self.system, mod.d)
            self.ieks = IEKS(self.system, mod.d)
            self.stranger = W.Model(c["stranger"])
            self.y = [W.meas_list(y, c["ystyle"]) for y in c["y"]]
            self.nodes = [None, None]

        def graph(self, p):
            if self.nodes[p] is None:
                n = build_nodes(N=len(self.y[p]), dim=mod.d)
                self.nodes[p] = node_system(node_estimator(n, self.est), self.system, self.y[p])
            return self.nodes[p]

        def piece(self, p, what, seed):
            np.random.seed(seed)
            if what == "simulate":
                self.system.simulate(3)
                return []
            if what == "stranger":  # an unrelated problem with objects of its own
                o = self.stranger
                s, t = o.system(), W.make_transform(c["t"], o.d)
                ys = [np.full(o.m, 0.3 * k + p) for k in range(3)]
                try:
                    ep_fwd_back_updates(W.build_graph(o, s, t, t, ys, 0.5, 0.9))
                    IEKF(s, o.d)(ys, num_iter=3)
                    IEKS(s, o.d)(ys, num_iter=3)
                    k = KalmanFilterSmoother(t, s)
                    k.kalman_smoother(k.kalman_filter(ys, t_zero=1.0), t_zero=1.0)
                except np.linalg.LinAlgError:
                    pass
                return []
            try:
                if what == "sweep":
                    ep_fwd_back_updates(self.graph(p))
                    out = [x.marginal for x in self.graph(p)]
                elif what == "nodewise":
                    ep_update(self.graph(p))
                    out = [x.marginal for x in self.graph(p)]
                elif what == "kalman":
                    f = self.kf.kalman_filter(self.y[p], u=0.0)
                    out = f + self.kf.kalman_smoother(f, u=0.0)
                elif what == "iekf":
                    out = self.iekf(self.y[p], num_iter=2 + 3 * p, u=0.0)
                else:
                    out = self.ieks(self.y[p], num_iter=2 + 2 * p)
            except np.linalg.LinAlgError:
                return None
            return [(np.array(g.mean, float), np.array(g.cov, float)) for g in out]

    def inputs(w):
        out = [w.system.system_noise.cov, w.system.measurement_noise.cov, w.system.init_state.mean, w.system.init_state.cov]
        out += [y for ys in w.y for y in ys]
        return out

    shared = World()
    keep = [np.array(a, copy=True) for a in inputs(shared)]
    for p in (0, 1):
        shared.graph(p)
    for a, b in zip(inputs(shared), keep):
        W.require(a.shape == b.shape and np.array_equal(a, b), "building a graph changed something handed in: %s became %s", W.short(b), W.short(a))
    pieces = []
    for i, (p, what) in enumerate(c["plan"]):
        pieces.append(shared.piece(p, what, 100 + i))
        for a, b in zip(inputs(shared), keep):
            W.require(np.array_equal(a, b), "%s of problem %d changed something handed in: %s became %s", what, p, W.short(b), W.short(a))
    for p in (0, 1):
        alone = World()
        for i, (q, what) in enumerate(c["plan"]):
            if q != p or what == "stranger":
                continue
            got, want = pieces[i], alone.piece(p, what, 100 + i)
            W.require((got is None) == (want is None), "piece %d (%s of problem %d) fails only when runs are interleaved", i, what, p)
            if want is None:
                continue
            for k, ((gm, gP), (wm, wP)) in enumerate(zip(got, want)):
                if not (np.all(np.isfinite(wm)) and np.all(np.isfinite(wP))):
                    ctx.label("not finite")
                    continue
                W.close("piece %d (%s of problem %d), mean %d, interleaved against alone" % (i, what, p, k), gm, wm, 1e-9, 1e-10)
                W.close("piece %d (%s of problem %d), covariance %d, interleaved against alone" % (i, what, p, k), gP, wP, 1e-9, 1e-10)
    ctx.label(c["t"]["kind"], *sorted({w for _, w in c["plan"]}))
    ctx.nontrivial(len(c["plan"]) >= 4 and len({p for p, _ in c["plan"]}) == 2 and min(len(y) for y in c["y"]) >= 1 and
                   max(len(y) for y in c["y"]) >= 2)
