"""The iterated filter makes Gauss-Newton corrections of the measurement update."""
from side import G, W, np, st, composite

N = {"quick": 220, "thorough": 6000}
RULE = ("Random nonlinear models with time- and input-dependent motion and measurement, 1-30 inner iterations, 1-12 steps; "
        "oracle: explicit Gauss-Newton on prior plus measurement with analytic Jacobians; one inner iteration is the "
        "extended Kalman filter; where the reference converges, the reported mean is a stationary point and the covariance "
        "is the inverse Gauss-Newton Hessian. Non-trivial: a nonlinear measurement and at least 2 inner iterations.")


@composite
def case(draw, tier):
    n = draw(G.length(5, 12))
    spec = draw(G.model(dmax=4, meas_noise=(-1, 1), far=True, sharp="all"))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"], spec)), "iters": draw(st.one_of(st.integers(1, 6), st.sampled_from([30]))),
            "t0": draw(st.sampled_from([0.0, 1.0, -2.0])), "u": draw(st.one_of(st.none(), G.num(-1, 1))),
            "used": draw(st.sampled_from([0, 0, 1, 3, 8])), "far": draw(st.sampled_from([0, 0, 0, 60, 250])), "ystyle": draw(st.sampled_from(["vec", "row"])),
            "prior": draw(st.one_of(st.none(), st.fixed_dictionaries({"m": G.vec(spec["d"], -3, 3), "P": G.spd(spec["d"])})))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n, i) in enumerate(((1, 1, 80, 4), (2, 1, 40, 10), (8, 3, 4, 3), (2, 7, 3, 5))):
        spec, y = G.steady(d, m, n, 60 + k)
        out.append({"model": spec, "y": y, "iters": i, "t0": 1.0, "u": 0.4, "used": 0, "far": 0, "prior": None, "ystyle": spec["style"]})
    return out


def reference(mod, ys, m, P, t0, u, iters, eps=0.0):
    out = []
    tt = {"kind": "TT"}
    for k, y in enumerate(ys):
        t = t0 + k * mod.dt
        mp, Pp, _ = W.ref_predict(tt, mod.rf(t, u), m, P, mod.Q)
        h, dh = mod.rh(t, u)
        x = mp * (1 + eps) + eps
        step = np.inf
        for i in range(iters):
            H = dh(x)
            S = H @ Pp @ H.T + mod.R
            if W.cond(S) > 1e8:
                return None
            K = Pp @ H.T @ np.linalg.inv(S)
            new = mp + K @ (y - h(x) - H @ (mp - x))
            step = np.abs(new - x).max()
            x, cov = new, W.sym(Pp - K @ S @ K.T)
        m, P = x, cov
        if not np.all(np.isfinite(m)) or np.abs(m - mod.o).max() > 1e3 or W.cond(P) > 1e7 or W.min_eig(P) <= 0:
            return None
        out.append((m, P, mp, Pp, step))
    return out


def check(c, ctx):
    from Filters.KalmanFilter import IEKF, KalmanFilterSmoother
    from MomentMatching import TaylorTransform
    from StateModel import Gaussian
    mod = W.Model(c["model"])
    ys = [W.arr(y) for y in c["y"]]
    t0, u = c["t0"], c["u"]
    m0, P0 = (mod.m0, mod.P0) if c["prior"] is None else (mod.o + W.arr(c["prior"]["m"]), W.spd(c["prior"]["P"]))
    if c["far"] and c["prior"] is not None and mod.s["fk"] != "sq" and mod.s["hk"] != "sq":  # far from the origin
        m0 = m0 + c["far"]
        x = m0
        for k in range(len(ys)):
            x = mod.rf(t0 + k * mod.dt, u)[0](x)
            ys[k] = ys[k] + mod.rh(t0 + k * mod.dt, u)[0](x)
        c = dict(c, y=[y.tolist() for y in ys])
        ctx.label("far from the origin")
    ref = reference(mod, ys, m0, P0, t0, u, c["iters"])
    per = reference(mod, [y + 1e-10 for y in ys], m0, P0 * (1 + 1e-10), t0, u, c["iters"], 1e-11)
    if ref is None or per is None:
        ctx.label("reference diverges")
        return
    # compare the steps before rounding differences are amplified beyond use
    sens = [max(np.abs(a[0] - b[0]).max(), np.abs(a[1] - b[1]).max()) for a, b in zip(ref, per)]
    csens = [np.abs(a[1] - b[1]).max() for a, b in zip(ref, per)]
    csize = W.cov_size(ref, [(0, r[3]) for r in ref], [(0, P0)])
    n = next((i for i, s in enumerate(sens) if s > 1e-6), len(ys))
    if n == 0:
        ctx.label("too sensitive")
        return
    if "sharp" in mod.s:
        ctx.label("sharp, " + mod.s["sharp"][0])
    filt = IEKF(mod.system(), mod.d)
    prior = {} if c["prior"] is None else {"prior_state": Gaussian(m0.copy(), P0.copy())}
    yl = W.meas_list(c["y"], c["ystyle"])
    if c["used"]:  # the same object, first used with another number of iterations
        filt(yl[:2], num_iter=c["used"], u=u)
    if c["iters"] == 5:
        got = filt(yl, t_zero=t0, u=u, **prior)
    else:
        got = filt(yl, num_iter=c["iters"], t_zero=t0, u=u, **prior)
    W.require(len(got) == len(ys), "%d measurements gave %d states", len(ys), len(got))
    for k in range(n):
        W.close_state("state %d of %d after %d inner iterations" % (k, len(ys), c["iters"]), got[k], ref[k][0], ref[k][1],
                      rtol=1e-7, atol=1e-8 + 100 * max(sens[:k + 1]), catol=1e-8 * csize + 100 * max(csens[:k + 1]))
    if c["iters"] == 1:
        ekf = KalmanFilterSmoother(TaylorTransform(dim=mod.d), mod.system()).kalman_filter(yl, t_zero=t0, u=u, **prior)
        for k in range(n):
            W.close_state("one inner iteration against the extended Kalman filter, state %d" % k, got[k], ekf[k].mean, ekf[k].cov,
                          rtol=1e-7, atol=1e-8 + 100 * max(sens[:k + 1]), catol=1e-8 * csize + 100 * max(csens[:k + 1]))
        ctx.label("one iteration")
    for k in range(n):
        m, P, mp, Pp, step = ref[k]
        if c["iters"] >= 2 and step < 1e-9:
            ctx.label("converged")
            h, dh = mod.rh(t0 + k * mod.dt, u)
            x = np.asarray(got[k].mean, float)
            g = np.linalg.solve(Pp, x - mp) - dh(x).T @ np.linalg.solve(mod.R, ys[k] - h(x))
            scale = np.linalg.norm(np.linalg.inv(P), 2)
            W.require(np.abs(g).max() <= 1e-5 * scale * (1 + np.abs(x).max()), "step %d: the converged mean is not a stationary point, gradient %s", k, W.short(g))
    # a second run of the same object gives the same result
    again = filt(W.meas_list(c["y"], c["ystyle"]), num_iter=c["iters"], t_zero=t0, u=u, **prior)
    W.require(len(again) == len(ys), "%d measurements gave %d states in the second run", len(ys), len(again))
    for k in range(n):
        W.close_state("the second run of the same object, state %d" % k, again[k], got[k].mean, got[k].cov,
                      rtol=1e-9, atol=1e-10 + 10 * max(sens[:k + 1]), catol=1e-10 * csize + 10 * max(csens[:k + 1]))
    if c["prior"] is not None:  # without a prior of its own a run starts from the system's
        own = reference(mod, ys[:1], mod.m0, mod.P0, t0, u, c["iters"])
        per = reference(mod, [ys[0] + 1e-10], mod.m0, mod.P0 * (1 + 1e-10), t0, u, c["iters"], 1e-11)
        if own is not None and per is not None and np.abs(own[0][0] - per[0][0]).max() < 1e-6:
            g = filt(W.meas_list(c["y"][:1], c["ystyle"]), num_iter=c["iters"], t_zero=t0, u=u)[0]
            W.close_state("a run from the system's prior after one from another", g, own[0][0], own[0][1], rtol=1e-5, atol=1e-5)
    ctx.nontrivial(c["iters"] >= 2 and mod.s["hk"] != "none")
