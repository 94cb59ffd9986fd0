"""Filtered estimates use the past only, and every step gets exactly one estimate."""
from side import G, W, np, st, composite

N = {"quick": 170, "thorough": 5000}
RULE = ("Random nonlinear models; filtering a measurement sequence, a prefix of it, a sequence with other later values and "
        "forward passes of EP graphs of different lengths must agree on the common past; smoothing keeps the last filtered "
        "estimate and leaves the filtered results alone, and result counts match. Non-trivial: a proper "
        "prefix of at least 1 step and different later measurements.")


@composite
def case(draw, tier):
    n = draw(st.one_of(st.integers(2, 9), st.integers(2, 9), st.integers(2, 9), st.integers(10, 60)))
    spec = draw(G.model(dmax=4 if n < 10 else 2, h_time=False))
    cut = draw(st.integers(1, n))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"])), "z": draw(G.measurements(draw(st.integers(0, 4)), spec["m"])), "cut": cut,
            "t": draw(G.transform(safe=True)), "engine": draw(st.sampled_from(["kalman", "iekf", "ep", "ep"])), "power": draw(G.powers()),
            "damping": draw(st.sampled_from([1, 1.0, 0.8])), "t0": draw(st.sampled_from([0.0, 2.0]))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from Filters.KalmanFilter import KalmanFilterSmoother, IEKF
    from ExpectationPropagation.Iterations import kalman_filter, kalman_smoother
    mod = W.Model(c["model"])
    k = c["cut"]

    def forward(ys):
        t = W.make_transform(c["t"], mod.d)
        if c["engine"] == "ep":
            nodes = W.build_graph(mod, mod.system(), t, t, ys, c["power"], c["damping"])
            W.require(len(nodes) == len(ys), "%d measurements gave %d nodes", len(ys), len(nodes))
            kalman_filter(nodes)
            out = [(np.array(x.marginal.mean, float), np.array(x.marginal.cov, float)) for x in nodes]
            before = out[-1]
            kalman_smoother(nodes)
            last = nodes[-1].marginal
        else:
            kf = IEKF(mod.system(), mod.d) if c["engine"] == "iekf" else KalmanFilterSmoother(t, mod.system())
            yl = W.meas_list(ys)
            f = kf(yl, num_iter=2, t_zero=c["t0"], u=0.0) if c["engine"] == "iekf" else kf.kalman_filter(yl, t_zero=c["t0"], u=0.0)
            W.require(len(f) == len(ys), "%d measurements gave %d estimates", len(ys), len(f))
            out = [(np.array(x.mean, float), np.array(x.cov, float)) for x in f]
            before = out[-1]
            sm = kf.kalman_smoother(f, u=0.0, t_zero=c["t0"])
            W.require(len(sm) == len(ys), "%d filtered estimates gave %d smoothed ones", len(ys), len(sm))
            last = sm[-1]
            for i, x in enumerate(f):
                W.require(np.array_equal(out[i][0], x.mean) and np.array_equal(out[i][1], x.cov), "smoothing changed filtered estimate %d", i)
        W.close_state("last smoothed estimate against the last filtered one", last, *before, rtol=1e-9)
        return out

    try:
        full = forward(c["y"])
        short = forward(c["y"][:k])
        other = forward(c["y"][:k] + c["z"])
    except np.linalg.LinAlgError:
        ctx.label("fails")
        return
    for i in range(k):
        if not (np.all(np.isfinite(full[i][0])) and np.all(np.isfinite(full[i][1]))):
            ctx.label("not finite")
            return
        for what, o in (("a shorter sequence", short), ("other later measurements", other)):
            tol = dict(rtol=1e-8, atol=1e-10)
            W.close("mean at step %d of %d with %s" % (i, len(full), what), o[i][0], full[i][0], **tol)
            W.close("covariance at step %d of %d with %s" % (i, len(full), what), o[i][1], full[i][1], **tol)
    ctx.label(c["engine"], c["t"]["kind"])
    ctx.nontrivial(k < len(c["y"]) and len(c["z"]) > 0)
