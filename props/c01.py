"""One EP sweep with unit power and damping is the matching Kalman filter and smoother."""
from side import G, W, np, st, composite

N = {"quick": 240, "thorough": 6000}
RULE = ("Random state-space models (1-4 states, 1-3 outputs, nonlinear, time- and input-dependent motion, vector or "
        "row outputs), Taylor or unscented moment matching, 1-25 steps; the first sweep is compared with the filter "
        "and smoother classes and with an independent EKF/UKF. Non-trivial: at least 2 steps, a nonlinear model and "
        "a well-conditioned reference.")


@composite
def case(draw, tier):
    n = draw(G.length(6, 25))
    spec = draw(G.model(dmax=4 if tier == "quick" else 6, h_time=False, sharp=True))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"])), "tt": draw(G.transform()),
            "mt": draw(G.transform()), "fargs": draw(st.booleans()), "t0": draw(st.sampled_from([0.0, 1.0, 3.5, -2.0])),
            "u": draw(G.num(-1, 1)), "unit": draw(st.sampled_from([1, 1.0])), "split": draw(st.booleans()),
            "ystyle": draw(st.sampled_from(["vec", "row"]))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n, tt, mt) in enumerate(((1, 1, 110, "UT", "TT"), (2, 1, 60, "TT", "TT"), (8, 3, 4, "UT", "UT"), (2, 7, 3, "TT", "UT"))):
        spec, y = G.steady(d, m, n, k)
        ut = {"alpha": 1, "beta": 2, "kappa": 1}
        out.append({"model": spec, "y": y, "tt": dict(ut, kind=tt), "mt": dict(ut, kind=mt), "fargs": k == 1, "t0": 1.0, "u": 0.4, "unit": 1,
                    "split": k == 3, "ystyle": spec["style"]})
    return out


def check(c, ctx):
    from ExpectationPropagation.Iterations import kalman_filter, kalman_smoother, ep_fwd_back_updates
    from Filters.KalmanFilter import KalmanFilterSmoother
    mod = W.Model(c["model"])
    ys = [W.arr(y) for y in c["y"]]
    n = len(ys)
    t0, u = (c["t0"], c["u"]) if c["fargs"] else (0.0, 0.0)
    ref = W.ref_filter_smoother(mod, c["tt"], c["mt"], ys, mod.m0, mod.P0, t0, u, cond_max=1e6)
    if ref is None:
        ctx.label("ill conditioned")
        return
    sens, csens = W.sensitivity(mod, c["tt"], c["mt"], ys, mod.m0, mod.P0, t0, u, ref, cov=True)
    if sens > 1e-5 or csens > 1e-5 * mod.unit:
        ctx.label("too sensitive")
        return
    system = mod.system()
    tt, mt = W.make_transform(c["tt"], mod.d), W.make_transform(c["mt"], mod.d)
    kf = KalmanFilterSmoother(tt, system, meas_moment_matching=mt)
    yl = W.meas_list(c["y"], c["ystyle"])
    filt = kf.kalman_filter(yl, t_zero=t0, u=u)
    smooth = kf.kalman_smoother(filt, u=u, t_zero=t0)
    fargs = [{"t": t0 + i * mod.dt, "u": u} for i in range(n)] if c["fargs"] else None
    nodes = W.build_graph(mod, system, tt, mt, c["y"], c["unit"], c["unit"], fargs, c["ystyle"])
    big = max(max(np.abs(m).max(), np.abs(P).max()) for m, P in ref[0] + ref[1] + [p[:2] for p in ref[2]])
    if big > 1e3:
        ctx.label("diverging")
        return
    if "sharp" in mod.s:
        ctx.label("sharp, " + mod.s["sharp"][0])
    ctx.label(c["tt"]["kind"] + "/" + c["mt"]["kind"], "d=%d" % mod.d, "steps>6" if n > 6 else "steps<=6")
    ctx.nontrivial(n >= 2 and (mod.s["fk"] != "none" or mod.s["hk"] != "none"))
    tol = dict(rtol=1e-7, atol=1e-8 + 50 * sens, catol=1e-8 * mod.unit + 50 * csens)
    if c["split"]:
        kalman_filter(nodes)
        for i, node in enumerate(nodes):
            W.close_state("EP forward pass, node %d, against the filter" % i, node.marginal, filt[i].mean,
                          filt[i].cov, **tol)
        kalman_smoother(nodes)
    else:
        ep_fwd_back_updates(nodes)
    for i, node in enumerate(nodes):
        W.close_state("EP sweep, node %d, against the smoother" % i, node.marginal, smooth[i].mean, smooth[i].cov, **tol)
        W.close_state("EP sweep, node %d, against the reference smoother" % i, node.marginal, *ref[1][i], **tol)
