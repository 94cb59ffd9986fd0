"""Estimates do not depend on the units or coordinates of states and measurements."""
from side import G, W, np, st, composite

N = {"quick": 130, "thorough": 4000}
RULE = ("Random nonlinear models rewritten in other state coordinates (any invertible affine change for Taylor matching, any "
        "lower-triangular one for the unscented rule) and other measurement units (any invertible affine change), over several powers of ten; filter, "
        "smoother, iterated filter and smoother, and EP with any power and damping must give the transformed estimates. "
        "Non-trivial: a nonlinear model, at least 2 steps and a change that is not the identity.")


@composite
def case(draw, tier):
    n = draw(G.length(4, 10))
    spec = draw(G.model(dmax=4, h_time=False))
    d, m = spec["d"], spec["m"]
    engine = draw(st.sampled_from(["kalman", "iekf", "ieks", "ep", "ep"]))
    mixed = draw(st.integers(0, 2)) == 2  # a unit of its own for each component
    top = 0 if engine == "ep" else 2
    return {"as": draw(st.lists(st.integers(-2, top), min_size=d, max_size=d)) if mixed else None,
            "bs": draw(st.lists(st.integers(-3, 2), min_size=m, max_size=m)) if mixed else None,
            "a": draw(st.sampled_from([0, 0, -1, -2] if engine == "ep" else [0, 0, -2, -1, 1, 2, 3])), "b": draw(st.sampled_from([0, 0, 0, -3, -4, 2, 3])),
            "model": spec, "y": draw(G.measurements(n, m)), "tt": draw(G.transform()), "T": draw(G.mat(d, d, -1, 1)), "Td": draw(G.vec(d, 0.3, 3)),
            "s": draw(G.vec(d, -5, 5)), "S": draw(G.mat(m, m, -1, 1)), "Sd": draw(G.vec(m, 0.3, 3)), "r": draw(G.vec(m, -5, 5)),
            "engine": engine, "power": draw(G.powers()), "damping": draw(G.dampings()),
            "sweeps": draw(st.integers(1, 3)), "which": draw(st.sampled_from(["state", "meas", "both"]))}


def strategy(tier):
    return case(tier)


def run(c, mod, system, ys):
    from Filters.KalmanFilter import KalmanFilterSmoother, IEKF, IEKS
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    t = W.make_transform(c["tt"], mod.d)
    yl = [y.copy() for y in ys]
    e = c["engine"]
    if e == "kalman":
        k = KalmanFilterSmoother(t, system)
        f = k.kalman_filter(yl, u=0.0)
        out = f + k.kalman_smoother(f, u=0.0)
    elif e == "iekf":
        out = IEKF(system, mod.d)(yl, num_iter=3, u=0.0)
    elif e == "ieks":
        out = IEKS(system, mod.d)(yl, num_iter=3)
    else:
        nodes = W.build_graph(mod, system, t, t, yl, c["power"], c["damping"])
        out = []
        for i in range(c["sweeps"]):
            ep_fwd_back_updates(nodes)
            out += [x.marginal for x in nodes]
    return [(np.array(g.mean, float), np.array(g.cov, float)) for g in out]


def check(c, ctx):
    import autograd.numpy as anp
    from Systems import DynamicSystemModel, GaussianNoise
    from StateModel import Gaussian
    mod = W.Model(c["model"])
    d, m = mod.d, mod.m
    taylor = c["tt"]["kind"] == "TT" or c["engine"] in ("iekf", "ieks")
    T, S = np.eye(d), np.eye(m)
    s, r = np.zeros(d), np.zeros(m)
    if c["which"] != "meas":
        T = W.arr(c["T"])
        T = np.tril(T, -1) + (np.triu(T, 1) if taylor else 0) + np.diag(c["Td"])
        s = W.arr(c["s"])
    if c["which"] != "state":
        S = W.arr(c["S"])
        S = S - np.diag(np.diag(S)) + np.diag(c["Sd"])
        r = W.arr(c["r"])
    if np.linalg.cond(T) > 50 or np.linalg.cond(S) > 50:
        ctx.label("nearly singular change")
        return
    turn = np.linalg.cond(T)
    if c["which"] != "meas":
        k = 10.0 ** W.arr([c["a"]] * d if c.get("as") is None else c["as"])
        T, s = k[:, None] * T, k * s
    if c["which"] != "state":
        k = 10.0 ** W.arr([c["b"]] * m if c.get("bs") is None else c["bs"])
        S, r = k[:, None] * S, k * r
    Ti = np.linalg.inv(T)
    ys = [W.arr(y) for y in c["y"]]

    def f(x, t=None, u=None):
        return anp.dot(mod.f(anp.dot(x - s, Ti.T), t, u), T.T) + s

    def h(x, t=None, u=None):
        return anp.dot(mod.h(anp.dot(x - s, Ti.T), t, u), S.T) + r
    other = DynamicSystemModel(system_dim=d, measurement_dim=m, transition=f, measurement=h,
                               system_noise=GaussianNoise(dimension=d, cov=W.sym(T @ mod.Q @ T.T)),
                               measurement_noise=GaussianNoise(dimension=m, cov=W.sym(S @ mod.R @ S.T)),
                               init_distribution=Gaussian(T @ mod.m0 + s, W.sym(T @ mod.P0 @ T.T)), dt=mod.dt)
    try:
        a = run(c, mod, mod.system(), ys)
        p = run(c, mod, mod.system(), [y * (1 + 1e-9) + 1e-9 for y in ys])
    except np.linalg.LinAlgError:
        ctx.label("fails")
        return
    sens = 0.0
    for (am, aP), (pm, pP) in zip(a, p):
        ok = np.all(np.isfinite(am)) and np.all(np.isfinite(aP)) and np.abs(am).max() < 1e3 and np.abs(aP).max() < 1e4 and W.cond(aP) < 1e6
        if not ok:
            ctx.label("ill conditioned")
            return
        sens = max(sens, np.abs(am - pm).max(), np.abs(aP - pP).max())
    if not sens < 1e-6:
        ctx.label("too sensitive")
        return
    vague = 0.0
    if c["engine"] == "ep":  # its first beliefs have precision 1e-10 in either coordinates
        top = max(np.abs(aP).max() for _, aP in a)
        vague = 1e-9 * max(1.0, np.linalg.norm(T, 2) ** 2) * top * (top + max(np.abs(am).max() for am, _ in a))
    b = run(c, mod, other, [S @ y + r for y in ys])
    for k, ((am, aP), (bm, bP)) in enumerate(zip(a, b)):
        big = max(turn ** 2, 1) * max(1, np.abs(Ti @ s).max())
        tol = dict(rtol=1e-6, atol=1e-7 + 1000 * sens * big + vague)
        W.close("%s result %d: mean in the other coordinates" % (c["engine"], k), Ti @ (bm - s), am, **tol)
        W.close("%s result %d: covariance in the other coordinates" % (c["engine"], k), Ti @ bP @ Ti.T, aP, **tol)
    if c.get("as") is not None:
        ctx.label("a unit per component")
    ctx.label(c["engine"], c["which"], c["tt"]["kind"], "other powers of ten" if (c["a"] and c["which"] != "meas") or (c["b"] and c["which"] != "state") else "same magnitude")
    ctx.nontrivial(len(ys) >= 2 and (mod.s["fk"] != "none" or mod.s["hk"] != "none") and (T.any() or S.any()))
