"""The Monte Carlo transform reports the statistics of the samples it propagates."""
from side import G, W, np, st, composite

N = {"quick": 300, "thorough": 8000}
RULE = ("Random nonlinear maps and Gaussian inputs, 2-100000 samples, now and then a precise belief far from the origin; the samples that reach the map are recorded and the "
        "result is compared with their sample mean, unbiased covariance and cross-covariance; the samples themselves "
        "must follow the input. Non-trivial: a nonlinear map with at least 2 inputs or outputs.")


@composite
def case(draw, tier):
    spec = draw(G.model(dmax=4, mmax=3, time=False, control=False))
    return {"model": spec, "m": draw(G.vec(spec["d"], -4, 4)), "P": draw(G.spd(spec["d"])),
            "which": draw(st.sampled_from(["f", "h"])), "shift": draw(st.sampled_from([0, 0, 0, 1e3, 1e5])), "samples": draw(st.one_of(st.integers(2, 60), st.sampled_from([400, 1000, 5000]), st.sampled_from([400, 1000, 5000, 10000, 30000, 100000])))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from StateModel import Gaussian
    from MomentMatching import MonteCarloTransform
    mod = W.Model(c["model"])
    m, P = W.arr(c["m"]), W.spd(c["P"])
    raw = mod.f if c["which"] == "f" else mod.h
    xs = []

    def func(x):
        xs.append(np.array(x, dtype=float))
        return raw(x)

    mc = MonteCarloTransform(dim=mod.d, number_of_samples=c["samples"])
    np.random.seed(c["samples"])
    mean, cov, cross = mc(func, Gaussian(m.copy(), P.copy()))
    X = np.vstack([np.atleast_2d(x) for x in xs])
    n = len(X)
    W.require(X.shape == (c["samples"], mod.d), "%d samples asked, the map saw %s", c["samples"], X.shape)
    g = (mod.rf(None) if c["which"] == "f" else mod.rh())[0]
    Y = np.array([g(x) for x in X]) if n <= 5000 else np.asarray(raw(X), float)  # a large batch is taken as a whole
    for i in range(0, n, max(1, n // 50)):
        W.close("the map on sample %d of the batch" % i, Y[i], g(X[i]), 1e-9, 1e-10)
    k = Y.shape[1]
    ym, xm = Y.mean(0), X.mean(0)
    C = (Y - ym).T @ (Y - ym) / (n - 1)
    Cx = (X - xm).T @ (Y - ym) / (n - 1)
    W.close("mean", np.asarray(mean), ym, 1e-9, 1e-10)
    W.close("covariance", np.asarray(cov).reshape(k, k), C, 1e-9, 1e-10)
    W.close("cross-covariance", np.asarray(cross).reshape(mod.d, k), Cx, 1e-9, 1e-10)
    Z = np.linalg.solve(np.linalg.cholesky(P), (X - m).T).T
    W.close("mean of the samples", Z.mean(0), np.zeros(mod.d), 0, 7 / np.sqrt(n))
    if mod.d >= 2 or n >= 200:  # random draws, not a design with the moments of the belief; a coincidence has no chance at 1e-9
        W.require(np.abs(Z.mean(0)).max() > 1e-9 and (n < 3 or np.abs(np.cov(Z.T) - np.eye(mod.d)).max() > 1e-9), "the samples have exactly the moments of the belief")
    if n >= 400:
        W.close("covariance of the samples", Z.T @ Z / n, np.eye(mod.d), 0, 7 * np.sqrt(2.0 / n))
    np.random.seed(c["samples"])
    again = mc(func, Gaussian(m.copy(), P.copy()))
    W.close("mean computed again with the same seed", again[0], np.asarray(mean), 1e-9)
    second = mc(func, Gaussian(m.copy(), P.copy()))
    if np.abs(C).max() > 1e-12:
        W.require(not np.array_equal(np.asarray(second[0]), np.asarray(mean)), "fresh samples are not drawn for each use")
    g0 = Gaussian(m.copy(), P.copy())
    xs[:] = []
    mc(func, g0)
    half = len(xs)
    mc(func, g0)
    A, B = (np.vstack([np.atleast_2d(x) for x in part]) for part in (xs[:half], xs[half:]))
    A, B = A[:5000], B[:5000]
    W.require(A.shape == B.shape and not np.any(np.all(np.isclose(A, B, rtol=1e-9, atol=0), axis=1)), "samples are used again for the same belief")
    if c.get("shift"):  # a precise belief far from the origin, seen through the same map
        X, Y, s = [], [], c["shift"]

        def moved(x):
            y = raw(x - s) + s
            X.append(np.array(x, dtype=float)), Y.append(np.array(y, dtype=float))
            return y
        _, cov, cross = mc(moved, Gaussian(m + s, P * 1e-4))
        X, Y = (np.vstack([np.atleast_2d(v) for v in part]) for part in (X, Y))
        X, Y = X - X.mean(0), Y.reshape(len(X), k) - Y.reshape(len(X), k).mean(0)
        sx, sy = np.sqrt((X ** 2).sum(0) / (n - 1)), np.sqrt((Y ** 2).sum(0) / (n - 1))
        floor = (1e-12 * (s + np.abs(X).max() + np.abs(Y).max())) ** 2
        for what, got, want, size in (("covariance", np.asarray(cov).reshape(k, k), Y.T @ Y / (n - 1), np.outer(sy, sy)),
                                      ("cross-covariance", np.asarray(cross).reshape(mod.d, k), X.T @ Y / (n - 1), np.outer(sx, sy))):
            W.require(np.all(np.abs(got - want) <= 1e-4 * size + floor), "%s of a precise belief far from the origin: %s instead of %s", what, got, want)
    kind = mod.s["fk"] if c["which"] == "f" else mod.s["hk"]
    ctx.label(kind, "n>=400" if n >= 400 else "n<400")
    ctx.nontrivial(kind != "none" and (mod.d >= 2 or k >= 2))
