"""The Taylor transform is the first-order expansion at the mean."""
from side import G, W, np, st, composite

N = {"quick": 450, "thorough": 12000}
RULE = ("Random nonlinear maps with analytic Jacobians (1-6 inputs, 1-4 outputs, vector or row outputs, time and input "
        "arguments), random Gaussian inputs by moments or natural parameters; also finite-difference Jacobians. "
        "Non-trivial: a nonlinear map and at least 2 inputs or outputs.")


@composite
def case(draw, tier):
    spec = draw(G.model(dmax=6, mmax=4))
    return {"model": spec, "m": draw(G.vec(spec["d"], -4, 4)), "P": draw(G.spd(spec["d"])),
            "which": draw(st.sampled_from(["f", "h"])), "natural": draw(st.booleans()), "t": draw(G.num(-3, 3)),
            "u": draw(G.num(-1, 1)), "unit": draw(st.sampled_from([1, 1, 1, 1e-8, 1e-4, 1e5])), "eps": draw(st.sampled_from([None, 1e-4, 1e-5, 1e-3, 1e-2, 0.1])),
            "narrow": draw(st.sampled_from([1e-6, 1e-10, 1e-14]))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from functools import partial
    from StateModel import Gaussian
    from MomentMatching import TaylorTransform
    mod = W.Model(c["model"])
    m, P = W.arr(c["m"]), W.spd(c["P"])
    raw = mod.f if c["which"] == "f" else mod.h
    g, dg = (mod.rf if c["which"] == "f" else mod.rh)(c["t"], c["u"])
    func = partial(raw, t=c["t"], u=c["u"])
    s, m, P = W.belief(m, P, c["natural"])
    tt = TaylorTransform(dim=mod.d)
    mean, cov, cross = tt(func, s)
    wm, wc, wx = W.ref_taylor(g, dg, m, P)
    lo = 1e-9 * (1 + np.abs(m).max())
    W.close("mean", np.asarray(mean), wm, 1e-9, lo)
    W.close("covariance", np.asarray(cov), wc, 1e-9, lo * (1 + np.abs(P).max()))
    W.close("cross-covariance", np.asarray(cross), wx, 1e-9, lo * (1 + np.abs(P).max()))
    # the same object at the same place for the same function with other arguments, and back again
    for dt, du in ((0.8, 0.0), (0.0, 0.5), (0.0, 0.0)):
        g2, dg2 = (mod.rf if c["which"] == "f" else mod.rh)(c["t"] + dt, c["u"] + du)
        for name, x, y in zip(("mean", "covariance", "cross-covariance"), tt(partial(raw, t=c["t"] + dt, u=c["u"] + du), s), W.ref_taylor(g2, dg2, m, P)):
            W.close("%s with arguments moved by %g and %g" % (name, dt, du), np.asarray(x), y, 1e-9, lo * (1 + np.abs(P).max()))
    J = dg(m)
    kw = {} if c["eps"] is None else {"eps": c["eps"]}
    num = TaylorTransform.numerical_jacobian(lambda x: np.ravel(np.asarray(raw(x, c["t"], c["u"]))), m.copy(), **kw)
    # a central difference is off by at most eps^2 / 6 times the third derivative, and rounding divided by eps
    e = c["eps"] or 1e-4
    third = mod.third_derivative("f" if c["which"] == "f" else "h")
    size = 1 + np.abs(g(m)).max() + np.abs(J).max() * (1 + np.abs(m).max())
    W.close("finite-difference Jacobian", np.asarray(num), J, 0, e ** 2 / 6 * third * 1.01 + 1e-14 * size / e)
    k = c["narrow"]  # the covariances scale with that of the belief
    m2, n2, x2 = tt(func, Gaussian(m.copy(), P * k))
    W.close("mean of a precise belief", np.asarray(m2), wm, 1e-9, lo)
    W.close("covariance of a precise belief", np.asarray(n2) / k, wc, 1e-9, lo * (1 + np.abs(P).max()))
    W.close("cross-covariance of a precise belief", np.asarray(x2) / k, wx, 1e-9, lo * (1 + np.abs(P).max()))
    if c["unit"] != 1:  # the same map of a state measured in other units
        k = c["unit"]
        mean, cov, cross = tt(lambda x: func(x / k), Gaussian(m * k, P * k ** 2))
        W.close("mean in other units", np.asarray(mean), wm, 1e-9, lo)
        W.close("covariance in other units", np.asarray(cov), wc, 1e-9, lo * (1 + np.abs(P).max()))
        W.close("cross-covariance in other units", np.asarray(cross) / k, wx, 1e-9, lo * (1 + np.abs(P).max()))
    kind = mod.s["fk"] if c["which"] == "f" else mod.s["hk"]
    ctx.label(kind, mod.s["style"])
    ctx.nontrivial(kind != "none" and (mod.d >= 2 or mod.m >= 2))
