"""The unscented transform is the weighted sigma-point rule for its parameters."""
from side import G, W, np, st, composite

N = {"quick": 450, "thorough": 12000}
RULE = ("Random nonlinear maps (sin, tanh, quadratic, rational; 1-6 inputs, 1-4 outputs), Gaussian inputs and parameters "
        "alpha, beta, kappa; compared with an explicit sigma-point sum, and for quadratic maps with the exact expectation. "
        "The inputs handed to the map are recorded: they must reproduce the input mean and covariance. Non-trivial: a "
        "nonlinear map with at least 2 inputs, or parameters other than the defaults.")


@composite
def case(draw, tier):
    spec = draw(G.model(dmax=6, mmax=4, time=False, control=False))
    return {"model": spec, "m": draw(G.vec(spec["d"], -4, 4)), "P": draw(G.spd(spec["d"])),
            "which": draw(st.sampled_from(["f", "h"])), "far": draw(st.sampled_from([None, None, None, None, 1e3, 1e4])), "wide": draw(st.sampled_from([None] * 7 + [1e6])), "default": draw(st.booleans()),
            "t": draw(G.transform(kinds=("UT",), safe=False)), "natural": draw(st.booleans()), "hole": draw(G.num(0, 1))}


def strategy(tier):
    return case(tier)


def tolerance(ref, pts, want, n_l, beta):
    """Rounding errors of the sigma-point sums: values for the mean, deviations for the covariances."""
    ys = np.array([ref(p) for p in pts])
    d = pts.shape[1]
    w0 = abs(1 - d / n_l) + abs(beta) + 2
    size = np.abs(ys).max() + 20 * np.abs(pts).max() + 1
    dev = max(np.abs(ys - want[0]).max(), np.sqrt(n_l) * np.sqrt(np.abs(want[1]).max()))
    devx = np.abs(pts - pts[0]).max()
    slip = 1e-14 * size * w0  # of the mean
    rel = 1e-10 + 1e-13 * w0
    return (slip + rel * dev, (rel * dev ** 2 + 1e-13 * size * dev) * w0 + w0 * slip ** 2 + slip * dev * abs(2 + beta),
            (rel * dev + 1e-13 * size) * devx * w0 + slip * devx)


def check(c, ctx):
    from functools import partial
    from StateModel import Gaussian
    from MomentMatching import UnscentedTransform
    mod = W.Model(c["model"])
    m, P = W.arr(c["m"]), W.spd(c["P"])
    if c.get("far"):  # a precise belief far from the origin
        m, P = m + c["far"], P * 1e-4
        c["natural"] = False
    elif c.get("wide"):
        P = P * c["wide"] ** 2
        c["natural"] = False
        ctx.label("wide")
    d = mod.d
    t = dict(c["t"])
    if c["default"]:
        t.update(alpha=1, beta=2, kappa=1)
        ut = UnscentedTransform(dim=d)
    else:
        ut = W.make_transform(t, d)
    calls = []
    raw = mod.f if c["which"] == "f" else mod.h

    def func(x):
        calls.append(np.array(x, dtype=float))
        return raw(x)

    g, m, P = W.belief(m, P, c["natural"])
    mean, cov, cross = ut(func, g)
    ref = (mod.rf(None) if c["which"] == "f" else mod.rh())[0]
    want = W.ref_unscented(ref, m, P, t["alpha"], t["beta"], t["kappa"])
    n_l = t["alpha"] ** 2 * (d + t["kappa"])
    root = np.sqrt(n_l) * np.linalg.cholesky(P).T
    pts = np.vstack([m, m + root, m - root])
    tols = tolerance(ref, pts, want, n_l, t["beta"])
    W.close("mean", np.asarray(mean), want[0], 0, tols[0])
    W.close("covariance", np.asarray(cov), want[1], 0, tols[1])
    W.close("cross-covariance", np.asarray(cross), want[2], 0, tols[2])
    pts = np.vstack([np.atleast_2d(x) for x in calls])
    W.close("mean of the evaluation points", pts.mean(0), m, 0, 1e-9 * (1 + np.abs(m).max() + np.sqrt(np.abs(P).max())))
    # the same object for other covariances of the same size, trace and diagonal
    sg = np.where(np.arange(d) % 2, -1.0, 1.0)
    for what, m2, P2 in (("reversed", m, P[::-1, ::-1]), ("reflected", m[::-1], P * np.outer(sg, sg)), ("first", m, P)):
        g2 = Gaussian(m2.copy(), P2.copy())
        if c["natural"]:
            g.mean, g.cov
        want2 = W.ref_unscented(ref, m2, P2, t["alpha"], t["beta"], t["kappa"])
        got2 = ut(func, g2)
        root = np.sqrt(n_l) * np.linalg.cholesky(P2).T
        for name, x, y, p in zip(("mean", "covariance", "cross-covariance"), got2, want2,
                                 tolerance(ref, np.vstack([m2, m2 + root, m2 - root]), want2, n_l, t["beta"])):
            W.close("%s for the %s covariance" % (name, what), np.asarray(x), y, 0, p)
    # the same object at the same place for the same function with other arguments
    def scaled(x, k=1.0):
        return k * raw(x)

    for k in (2.5, -1.0):
        got2 = ut(partial(scaled, k=k), g)
        for name, x, y, p, q in zip(("mean", "covariance", "cross-covariance"), got2, want, (k, k * k, k), tols):
            W.close("%s of %g times the map" % (name, k), np.asarray(x), p * y, 0, 3 * abs(p) * q)
    # a map that has no value at one of the points has no weighted mean
    hole = int(c["hole"] * 2 * d)

    def holed(x):
        y = np.array(raw(x), dtype=float)
        y[hole] = np.nan
        return y
    try:
        W.require(not np.all(np.isfinite(ut(holed, g)[0])), "the map has no value at sigma point %d, but the mean is finite", hole)
    except (ValueError, ArithmeticError, np.linalg.LinAlgError):
        pass
    kind = mod.s["fk"] if c["which"] == "f" else mod.s["hk"]
    if kind == "sq" or kind == "none":
        # E[h] for h = H x + c + ha/4 (g.x)^2
        exact = mod.H @ m + mod.c if c["which"] == "h" else mod.A @ m + mod.b
        if kind == "sq":
            z = mod.G @ m
            exact = exact + mod.s["ha"] * 0.25 * (z ** 2 + np.diag(mod.G @ P @ mod.G.T))
        W.close("exact expectation of a quadratic map", np.asarray(mean), exact, 0, 10 * tols[0])
        ctx.label("quadratic or affine: exact")
    ctx.label(kind, "default" if c["default"] else "own parameters")
    ctx.nontrivial((d >= 2 and kind != "none") or not c["default"])
