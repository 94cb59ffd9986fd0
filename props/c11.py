"""Every moment matching is exact on affine maps."""
from side import G, W, np, st, composite

N = {"quick": 500, "thorough": 15000}
RULE = ("Random affine maps R^d -> R^k (1-6 dimensions each way, singular and constant ones included) and random Gaussian "
        "inputs; Taylor and unscented matching (all parameter choices) against the exact mean, covariance and "
        "cross-covariance; Monte Carlo within 7 standard errors. Non-trivial: input dimension at least 2 or different "
        "from the output dimension.")


@composite
def case(draw, tier):
    d, k = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    A = draw(G.mat(k, d, -3, 3))
    if draw(st.integers(0, 5)) == 0:
        A = [[0.0] * d for _ in range(k)]
    return {"d": d, "k": k, "A": A, "b": draw(G.vec(k, -5, 5)), "m": draw(G.vec(d, -5, 5)), "P": draw(G.spd(d)), "low": draw(st.integers(0, 5)) == 0,
            "unit": draw(st.sampled_from([1, 1, 1, 1, 1e6, 1e-5])), "natural": draw(st.booleans()), "style": draw(st.sampled_from(["vec", "row"])),
            "t": draw(st.one_of(st.just({"kind": "TT"}), G.transform(kinds=("UT",), safe=False),
                                G.transform(kinds=("UT",), safe=False),
                                st.just({"kind": "MC", "samples": 4000})))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from StateModel import Gaussian
    import autograd.numpy as anp
    A, b, m, P = W.arr(c["A"]), W.arr(c["b"]), W.arr(c["m"]), W.spd(c["P"])
    unit = 1 if c["low"] or c["t"]["kind"] == "MC" else c.get("unit", 1)
    if unit != 1:
        b, m, P = b * unit, m * unit, P * unit ** 2
        ctx.label("unit %g" % unit)

    def f(x):
        x = anp.atleast_2d(x) if c["style"] == "row" else x
        return anp.dot(x, A.T) + b

    t = W.make_transform(c["t"], c["d"])
    if c["low"] and c["t"]["kind"] != "MC":  # a covariance without full rank: some directions are known exactly
        L = np.linalg.cholesky(P)
        L[:, (c["d"] + 1) // 2:] = 0
        P = W.sym(L @ L.T)
        g = Gaussian(m.copy(), P.copy())
        ctx.label("singular covariance")
    else:
        g, m, P = W.belief(m, P, c["natural"] and unit == 1)
    mean, cov, cross = t(f, g)
    want = A @ m + b, A @ P @ A.T, P @ A.T
    ctx.label(c["t"]["kind"], "d%sk" % ("<" if c["d"] < c["k"] else ">" if c["d"] > c["k"] else "="))
    ctx.nontrivial(c["d"] >= 2 or c["d"] != c["k"])
    mean, cov, cross = np.asarray(mean), np.asarray(cov), np.asarray(cross)
    if c["t"]["kind"] == "MC":
        n = c["t"]["samples"]
        W.close("mean", np.ravel(mean), want[0], 0, 7 * np.sqrt(np.diag(want[1]).max() / n) + 1e-9)
        s = np.sqrt(np.diag(want[1]).max())
        W.close("covariance", cov.reshape(want[1].shape), want[1], 0, 7 * s * s * np.sqrt(2.0 / n) + 1e-9)
        W.close("cross-covariance", cross.reshape(want[2].shape), want[2], 0,
                7 * s * np.sqrt(np.diag(P).max()) * np.sqrt(2.0 / n) + 1e-9)
        return
    sc = np.abs(want[0]).max() + np.abs(A).max() * np.abs(m).max() + np.sqrt(np.abs(want[1]).max()) + unit
    # rounding: the weights of the mean are of order 1 / alpha^2, those of deviations of order alpha as well
    a = 1.0 if c["t"]["kind"] == "TT" else min(1.0, c["t"]["alpha"])
    w = 1e-11 + 1e-12 / a
    jit = 1e-9 * c["d"] * (1 + np.abs(A).max() ** 2) if c["low"] else 0.0  # a tiny variance may be added to factorise it
    W.close("mean", mean, want[0], 0, (1e-11 + 5e-14 / a ** 2) * sc)
    W.close("covariance", cov, want[1], 0, w * sc * sc + jit)
    W.close("cross-covariance", cross, want[2], 0, w * sc * (sc + np.abs(m).max() + np.sqrt(np.abs(P).max())) + jit)
