"""Samples follow the stated distribution and the global seed."""
from side import G, W, np, st, composite

N = {"quick": 160, "thorough": 4000}
RULE = ("Random means and covariances (1-9 dimensions, also singular ones) for beliefs and noise models; 6000 draws are "
        "whitened and their first two moments held to 7 standard errors, seeds replayed, shapes checked. Non-trivial: "
        "at least 2 dimensions with correlated components and a non-zero mean.")
ASSUMPTIONS = ["the statistical bound is 7 standard errors over at most a few dozen moments per case; the draws are "
               "a deterministic function of the case, so a pass is repeatable"]


@composite
def case(draw, tier):
    d = draw(G.dims(5, 9))
    return {"d": d, "m": draw(G.vec(d, -5, 5)), "P": draw(G.spd(d)), "what": draw(st.sampled_from(["belief", "natural", "noise", "noise0"])),
            "few": draw(st.integers(1, 4)), "rank": draw(st.sampled_from([None, None, 0, 1])), "seed": draw(st.integers(0, 2 ** 31))}


def strategy(tier):
    return case(tier)


def examples():
    tail = {"tail": True, "d": 2, "m": [1.0, -2.0], "P": {"low": [[], [0.5]], "diag": [0.8, 1.1], "e": [0.5, -0.5]}, "seed": 11}
    return [dict(tail, what="belief"), dict(tail, what="noise", seed=12)]


def check_tail(c, ctx):
    """Frequencies of whole intervals of the whitened samples, out to more than four deviations."""
    from math import erf
    from StateModel import Gaussian
    from Systems import GaussianNoise
    m, P = W.arr(c["m"]), W.spd(c["P"])
    g = Gaussian(m.copy(), P.copy()) if c["what"] == "belief" else GaussianNoise(dimension=2, cov=P.copy(), mean=m.copy())
    n = 2000000
    np.random.seed(c["seed"])
    a = np.array(g.sample(n))
    w, V = np.linalg.eigh(P)
    cuts = [-np.inf, -4, -3, -2, -1, -0.3, 0.3, 1, 2, 3, 4, np.inf]
    cdf = np.array([0.5 * (1 + erf(x / 2 ** 0.5)) for x in cuts])
    for z in list((((a - m) @ V) / np.sqrt(w)).T) + list(((a - m) / np.sqrt(np.diag(P))).T):
        for lo, hi, p in zip(cuts, cuts[1:], np.diff(cdf)):
            k = int(((z >= lo) & (z < hi)).sum())
            W.require(abs(k - n * p) <= 6 * np.sqrt(n * p) + 2, "%d of %d samples lie between %s and %s deviations, expected %.1f", k, n, lo, hi, n * p)
    ctx.label("tail")
    ctx.nontrivial()


def check(c, ctx):
    from StateModel import Gaussian
    from Systems import GaussianNoise
    if c.get("tail"):
        return check_tail(c, ctx)
    d = c["d"]
    m, P = W.arr(c["m"]), W.spd(c["P"])
    singular = c["rank"] is not None and c["what"] in ("noise", "noise0", "belief")
    if singular:
        Lc = np.linalg.cholesky(P)[:, :c["rank"]]
        P = Lc @ Lc.T
    if c["what"] == "noise0":
        m = np.zeros(d)
    if c["what"] == "belief":
        g = Gaussian(m.copy(), P.copy())
    elif c["what"] == "natural":
        g = Gaussian.from_natural(*W.to_natural(m, P))
    elif c["what"] == "noise":
        g = GaussianNoise(dimension=d, cov=P.copy(), mean=m.copy())
    else:
        g = GaussianNoise(dimension=d, cov=P.copy())
    n = 6000
    np.random.seed(c["seed"])
    a = np.array(g.sample(n))
    tail = np.array(g.sample(3))
    np.random.seed(c["seed"])
    b = np.array(g.sample(n))
    W.require(a.shape == (n, d), "%d samples have shape %s", n, a.shape)
    W.close("samples drawn again with the same seed", b, a, 1e-9)
    if np.abs(P).max() > 0:
        W.require(not np.array_equal(a[:3], tail), "two successive draws are identical")
        np.random.seed((c["seed"] + 1) % 2 ** 32)
        W.require(not np.array_equal(np.array(g.sample(n)), a), "a different seed gave the same samples")
    if c["what"].startswith("noise"):
        pair = []
        for _ in range(2):  # draw by draw, as the simulator does
            np.random.seed(c["seed"])
            pair.append(np.array([np.asarray(g.sample()) for _ in range(c["few"])]))
        W.close("single draws after the same seed", pair[1], pair[0], 1e-9)
        np.random.seed(c["seed"])
        block = np.asarray(g.sample((2, c["few"])))
        W.require(block.shape == (2, c["few"], d), "a 2 by %d block of draws has shape %s", c["few"], block.shape)
        one = np.asarray(g.sample())
        W.require(one.shape == (d,), "one noise sample has shape %s", one.shape)
        W.close("noise mean", np.asarray(g.mean, float), m)
        W.close("noise covariance", np.asarray(g.cov, float), P)
        # single draws, as the simulator makes them, have the same distribution
        single = np.array([g.sample() for _ in range(400)])
        sets = [("samples", a), ("single samples", single)]
    else:
        sets = [("samples", a)]
    # a few draws at a time, and the draws of one call must not depend on each other
    few = np.array([g.sample(c["few"]) for _ in range(1000 // c["few"])])
    W.require(few.shape == (1000 // c["few"], c["few"], d), "%d samples have shape %s", c["few"], few.shape[1:])
    sets.append(("samples drawn %d at a time" % c["few"], few.reshape(-1, d)))
    w, V = np.linalg.eigh(P)
    for j in range(1, c["few"]):
        ok = w >= 1e-9 * max(w.max(), 1e-9)
        u, v = ((few[:, 0] - m) @ V)[:, ok] / np.sqrt(w[ok]), ((few[:, j] - m) @ V)[:, ok] / np.sqrt(w[ok])
        if u.shape[1]:
            W.close("correlation of draws 0 and %d of one call" % j, (u * v).mean(0), np.zeros(u.shape[1]), 0, 9 / np.sqrt(len(u)))
    for what, s in sets:
        z = (s - m) @ V
        for i in range(d):
            if w[i] < 1e-9 * max(w.max(), 1e-9):
                W.require(np.abs(z[:, i]).max() < 3e-4 * max(1.0, np.sqrt(w.max())), "%s leave the support of a singular covariance by %.2g", what,
                          np.abs(z[:, i]).max())
        ok = w >= 1e-9 * max(w.max(), 1e-9)
        z = z[:, ok] / np.sqrt(w[ok])
        k = len(z)
        if z.shape[1]:
            W.close("mean of whitened %s" % what, z.mean(0), np.zeros(z.shape[1]), 0, 7 / np.sqrt(k))
            C = z.T @ z / k
            W.close("covariance of whitened %s" % what, C, np.eye(z.shape[1]), 0, 7 * np.sqrt(2.0 / k))
            W.close("fourth moment of whitened %s" % what, (z ** 4).mean(0), 3 * np.ones(z.shape[1]), 0, 7 * np.sqrt(96.0 / k) + 0.05)
            # successive draws are uncorrelated
            W.close("serial correlation of %s" % what, (z[1:] * z[:-1]).mean(0), np.zeros(z.shape[1]), 0, 7 / np.sqrt(k - 1))
            # and so are draws any other distance apart
            for lag in (2, k // 2, k // 3, k // 4, k - k // 8):
                if k - lag >= 100 or lag > k // 2 and k > 1000:
                    for e in (1, 2):
                        u, v = z[lag:] ** e - (e == 2), z[:-lag] ** e - (e == 2)
                        W.close("correlation of %s %d apart" % (what, lag), (u * v).mean(0), np.zeros(z.shape[1]), 0, 9 * e / np.sqrt(k - lag))
            r = z[::-1][: k // 2]
            W.close("correlation of %s with their mirror" % what, (r * z[: k // 2]).mean(0), np.zeros(z.shape[1]), 0, 9 / np.sqrt(k // 2))
    ctx.label(c["what"], "singular" if singular else "full rank")
    ctx.nontrivial(d >= 2 and np.abs(P - np.diag(np.diag(P))).max() > 0 and (np.abs(m).max() > 0 or c["what"] == "noise0"))
