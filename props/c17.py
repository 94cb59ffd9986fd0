"""The iterated smoother is Gauss-Newton on the whole trajectory."""
from side import G, W, np, st, composite

N = {"quick": 150, "thorough": 4000}
RULE = ("Random nonlinear models with time-dependent motion and measurement, 1-25 iterations, 1-10 steps; oracle: dense "
        "Gauss-Newton on the joint posterior of the initial state and the whole trajectory with analytic Jacobians, started "
        "from the extended Kalman smoother; where it converges the reported means are a stationary point. One iteration "
        "is the extended Kalman smoother, and repeated or interleaved use of one object changes nothing. Non-trivial: a "
        "nonlinear model, at least 2 steps and 2 iterations.")


@composite
def case(draw, tier):
    n = draw(G.length(5, 14))
    spec = draw(G.model(dmax=3, control=False, far=True, sharp="all"))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"], spec)), "iters": draw(st.one_of(st.integers(1, 5), st.sampled_from([25]))),
            "reuse": draw(st.sampled_from(["no", "same", "other"])), "y2": draw(G.measurements(n, spec["m"], spec)),
            "ystyle": draw(st.sampled_from(["vec", "row"]))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n, i) in enumerate(((1, 1, 60, 4), (2, 1, 30, 3), (7, 3, 4, 3))):
        spec, y = G.steady(d, m, n, 70 + k)
        spec.pop("fu")
        out.append({"model": spec, "y": y, "iters": i, "reuse": "no", "y2": y, "ystyle": spec["style"]})
    return out


def dense(mod, ys, x):
    """One Gauss-Newton step on (x_0, ..., x_N) from the trajectory x; returns the means and the joint covariance."""
    n, d = len(ys), mod.d
    L = np.zeros(((n + 1) * d, (n + 1) * d))
    s = np.zeros((n + 1) * d)
    P0i, Qi, Ri = np.linalg.inv(mod.P0), np.linalg.inv(mod.Q), np.linalg.inv(mod.R)
    L[:d, :d] += P0i
    s[:d] += P0i @ mod.m0
    for k in range(n):
        f, df = mod.rf(k * mod.dt, None)
        h, dh = mod.rh(k * mod.dt, None)
        A = df(x[k])
        b = f(x[k]) - A @ x[k]
        J = np.zeros((d, (n + 1) * d))
        J[:, (k + 1) * d:(k + 2) * d] = np.eye(d)
        J[:, k * d:(k + 1) * d] = -A
        L += J.T @ Qi @ J
        s += J.T @ Qi @ b
        H = dh(x[k + 1])
        J = np.zeros((mod.m, (n + 1) * d))
        J[:, (k + 1) * d:(k + 2) * d] = H
        L += J.T @ Ri @ J
        s += J.T @ Ri @ (ys[k] - h(x[k + 1]) + H @ x[k + 1])
    L = W.sym(L)
    if not np.all(np.isfinite(L)) or W.cond(L) > 1e9:
        return None
    S = np.linalg.inv(L)
    return (S @ s).reshape(n + 1, d), W.sym(S)


def gradient(mod, ys, x):
    g = np.zeros_like(x)
    g[0] += np.linalg.solve(mod.P0, x[0] - mod.m0)
    for k, y in enumerate(ys):
        f, df = mod.rf(k * mod.dt, None)
        h, dh = mod.rh(k * mod.dt, None)
        r = np.linalg.solve(mod.Q, x[k + 1] - f(x[k]))
        g[k + 1] += r
        g[k] -= df(x[k]).T @ r
        g[k + 1] -= dh(x[k + 1]).T @ np.linalg.solve(mod.R, y - h(x[k + 1]))
    return g


def reference(mod, ys, iters, eps=0.0):
    tt = {"kind": "TT"}
    first = W.ref_filter_smoother(mod, tt, tt, ys, mod.m0 * (1 + eps) + eps, mod.P0, cond_max=1e6)
    if first is None:
        return None
    d = mod.d
    states = first[1]
    mp, Pp, C = first[2][0]
    x0 = W.ref_smooth(mod.m0, mod.P0, mp, Pp, C, *states[0])[0]
    x = np.array([x0] + [s[0] for s in states])
    step = np.inf
    for i in range(iters - 1):
        out = dense(mod, ys, x)
        if out is None or np.abs(out[0] - mod.o).max() > 1e3:
            return None
        step = np.abs(out[0] - x).max()
        x, S = out
        states = [(x[k + 1], S[(k + 1) * d:(k + 2) * d, (k + 1) * d:(k + 2) * d]) for k in range(len(ys))]
    if any(np.abs(m - mod.o).max() > 1e3 for m, _ in states):
        return None
    return states, x, step


def check(c, ctx):
    from Filters.KalmanFilter import IEKS, KalmanFilterSmoother
    from MomentMatching import TaylorTransform
    mod = W.Model(c["model"])
    ys = [W.arr(y) for y in c["y"]]
    n, iters = len(ys), c["iters"]
    ref = reference(mod, ys, iters)
    per = reference(mod, [y + 1e-10 for y in ys], iters, 1e-11)
    if ref is None or per is None:
        ctx.label("reference diverges")
        return
    sens = max(max(np.abs(a[0] - b[0]).max(), np.abs(a[1] - b[1]).max()) for a, b in zip(ref[0], per[0]))
    csens = max(np.abs(a[1] - b[1]).max() for a, b in zip(ref[0], per[0]))
    if sens > 1e-6:
        ctx.label("too sensitive")
        return
    if "sharp" in mod.s:
        ctx.label("sharp, " + mod.s["sharp"][0])
    smoother = IEKS(mod.system(), mod.d)
    yl = W.meas_list(c["y"], c["ystyle"])
    if c["reuse"] == "other":
        try:
            smoother(W.meas_list(c["y2"], c["ystyle"]), num_iter=2)
        except np.linalg.LinAlgError:
            ctx.label("first use failed")
    got = smoother(yl) if iters == 5 else smoother(yl, num_iter=iters)
    W.require(len(got) == n, "%d measurements gave %d states", n, len(got))
    tol = dict(rtol=1e-6, atol=1e-7 + 200 * sens, catol=1e-7 * W.cov_size(ref[0], [(0, mod.P0)]) + 200 * csens)
    for k in range(n):
        W.close_state("state %d of %d after %d iterations" % (k, n, iters), got[k], *ref[0][k], **tol)
    if iters == 1:
        kf = KalmanFilterSmoother(TaylorTransform(dim=mod.d), mod.system())
        eks = kf.kalman_smoother(kf.kalman_filter(W.meas_list(c["y"])))
        for k in range(n):
            W.close_state("one iteration against the extended Kalman smoother, state %d" % k, got[k], eks[k].mean, eks[k].cov, **tol)
    if iters > 2 and ref[2] < 1e-9:
        ctx.label("converged")
        x = ref[1].copy()
        for k in range(n):
            x[k + 1] = got[k].mean
        g = gradient(mod, ys, x)[1:]
        scale = max(np.linalg.norm(np.linalg.inv(P), 2) for _, P in ref[0] + [(0, mod.Q)])
        W.require(np.abs(g).max() <= 1e-5 * scale * (1 + np.abs(x).max()), "the converged means are not a stationary point: gradient %s", W.short(g))
    if c["reuse"] == "same":
        again = smoother(yl, num_iter=iters)
        for k in range(n):
            W.close_state("the second run of the same object, state %d" % k, again[k], got[k].mean, got[k].cov, **tol)
    ctx.label("iterations=%d" % iters, "reuse:" + c["reuse"])
    ctx.nontrivial(iters >= 2 and n >= 2 and (mod.s["fk"] != "none" or mod.s["hk"] != "none"))
