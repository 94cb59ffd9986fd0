"""Data never increases uncertainty, and covariances stay proper."""
from side import G, W, np, st, composite

N = {"quick": 220, "thorough": 6000}
RULE = ("Random nonlinear models with time- and input-dependent motion and measurement, Taylor or unscented matching with "
        "non-negative weights, 1-30 steps; the covariances of the filter, smoother, iterated filter, iterated smoother and "
        "one EP sweep are checked to be symmetric and positive definite, and ordered: filtered below predicted, smoothed "
        "below filtered, lower measurement noise below higher. On linear models they must not depend on the data. "
        "Non-trivial: at least 2 steps and a nonlinear model or at least 2 states.")
ASSUMPTIONS = ["orderings are checked to 1e-7 relative to the larger covariance, on problems whose condition numbers stay below 1e8"]


@composite
def case(draw, tier):
    n = draw(G.length(6, 30))
    linear = draw(st.integers(0, 3)) == 0
    spec = draw(G.model(dmax=4 if tier == "quick" else 6, linear=linear, qrank=True, far=True))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"], spec)), "y2": draw(G.measurements(n, spec["m"], spec)),
            "t": draw(G.transform()), "t0": draw(st.sampled_from([0.0, 2.0, -1.5])), "u": draw(G.num(-1, 1)),
            "shrink": draw(st.sampled_from([0.5, 0.1, 0.9])), "linear": linear,
            "ystyle": draw(st.sampled_from(["vec", "row"]))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n, t) in enumerate(((1, 1, 80, "UT"), (2, 1, 40, "TT"), (8, 3, 4, "UT"))):
        spec, y = G.steady(d, m, n, 80 + k, linear=k == 0)
        out.append({"model": spec, "y": y, "y2": [[v - 1 for v in r] for r in y], "t": {"kind": t, "alpha": 1, "beta": 2, "kappa": 1}, "t0": 0.0, "u": 0.3,
                    "shrink": 0.5, "linear": k == 0, "ystyle": spec["style"]})
    return out


def below(what, lo, hi):
    s = np.sqrt(np.diag(hi))
    D = (hi - lo) / np.outer(s, s)
    e = np.linalg.eigvalsh((D + D.T) / 2).min()
    W.require(e >= -1e-7, "%s: the difference has eigenvalue %.3g of its scale; %s is not below %s", what, e, W.short(lo), W.short(hi))


def proper(what, P):
    P = np.asarray(P, float)
    W.require(np.all(np.isfinite(P)), "%s is not finite", what)
    s = np.abs(P).max()
    W.require(np.abs(P - P.T).max() <= 1e-9 * s, "%s is not symmetric: %s", what, W.short(P))
    W.require(np.linalg.eigvalsh((P + P.T) / 2).min() > -1e-9 * s, "%s is not positive: %s", what, W.short(P))


def check(c, ctx):
    from Filters.KalmanFilter import KalmanFilterSmoother, IEKF, IEKS
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from MomentMatching import TaylorTransform
    from MomentMatching.Estimator import Estimator
    mod = W.Model(c["model"])
    ys = [W.arr(y) for y in c["y"]]
    t0, u = c["t0"], c["u"]
    ref = W.ref_filter_smoother(mod, c["t"], c["t"], ys, mod.m0, mod.P0, t0, u, cond_max=1e8)
    if ref is None or max(np.abs(m - mod.o).max() for m, _ in ref[0] + ref[1]) > 1e4:
        ctx.label("reference ill conditioned")
        return

    def solve(system, y):
        kf = KalmanFilterSmoother(W.make_transform(c["t"], mod.d), system)
        yl = W.meas_list(y, c["ystyle"])
        f = kf.kalman_filter(yl, t_zero=t0, u=u)
        return f, kf.kalman_smoother(f, t_zero=t0, u=u)

    filt, smooth = solve(mod.system(), c["y"])
    for k, (f, s) in enumerate(zip(filt, smooth)):
        proper("filtered covariance %d" % k, f.cov)
        proper("smoothed covariance %d" % k, s.cov)
        prev = (mod.m0, mod.P0) if k == 0 else (np.asarray(filt[k - 1].mean, float), np.asarray(filt[k - 1].cov, float))
        try:
            Pp = W.ref_predict(c["t"], mod.rf(t0 + k * mod.dt, u), *prev, mod.Q)[1]
        except np.linalg.LinAlgError:
            continue
        below("filtered covariance %d against the predicted one" % k, np.asarray(f.cov), Pp)
        below("smoothed covariance %d against the filtered one" % k, np.asarray(s.cov), np.asarray(f.cov))
    better = mod.system()
    better.measurement_noise.cov = better.measurement_noise.cov * c["shrink"]
    kf1, _ = solve(better, c["y"])
    below("first filtered covariance with less measurement noise", np.asarray(kf1[0].cov), np.asarray(filt[0].cov))
    if c["linear"]:
        ctx.label("linear")
        f2, s2 = solve(mod.system(), c["y2"])
        for k in range(len(ys)):
            W.close_cov("filtered covariance %d of a linear model with other data" % k, f2[k].cov, filt[k].cov, 1e-7)
            W.close_cov("smoothed covariance %d of a linear model with other data" % k, s2[k].cov, smooth[k].cov, 1e-7)
        less, more = solve(better, c["y"]), (filt, smooth)
        for k in range(len(ys)):
            below("filtered covariance %d with less measurement noise" % k, np.asarray(less[0][k].cov), np.asarray(more[0][k].cov))
            below("smoothed covariance %d with less measurement noise" % k, np.asarray(less[1][k].cov), np.asarray(more[1][k].cov))
    if c["t"]["kind"] == "TT":
        ekf = IEKF(mod.system(), mod.d)(W.meas_list(c["y"], c["ystyle"]), num_iter=2, t_zero=t0, u=u)
        m, P = mod.m0, mod.P0
        for k, g in enumerate(ekf):
            if not np.all(np.isfinite(np.asarray(g.mean, float))) or np.abs(np.asarray(g.mean) - mod.o).max() > 1e4 or W.cond(P) > 1e7:
                ctx.label("iterated filter leaves the range")
                break
            proper("iterated filter covariance %d" % k, g.cov)
            Pp = W.ref_predict(c["t"], mod.rf(t0 + k * mod.dt, u), m, P, mod.Q)[1]
            below("iterated filter covariance %d against the predicted one" % k, np.asarray(g.cov), Pp)
            m, P = np.asarray(g.mean, float), np.asarray(g.cov, float)
        else:
            ctx.label("iterated filter")
    t = W.make_transform(c["t"], mod.d)
    system = mod.system()
    if "ht" not in mod.s and "hu" not in mod.s:
        est = Estimator(trans_map=t, meas_map=t, trans_noise=system.transition_noise.cov, meas_noise=system.measurement_noise.cov)
        nodes = node_system(node_estimator(build_nodes(N=len(ys), dim=mod.d), est), system, W.meas_list(c["y"], c["ystyle"]))
        ep_fwd_back_updates(nodes)
        for k, node in enumerate(nodes):
            proper("covariance of belief %d after one sweep" % k, node.marginal.cov)
        ctx.label("sweep")
    ctx.label(c["t"]["kind"])
    ctx.nontrivial(len(ys) >= 2 and (mod.d >= 2 or mod.s["fk"] != "none" or mod.s["hk"] != "none"))
