"""The numerical helpers keep their contracts for well- and ill-conditioned matrices."""
from side import G, W, np, st, composite

N = {"quick": 700, "thorough": 20000}
RULE = ("Random square matrices: positive definite, nearly singular, singular, indefinite, asymmetric by rounding, 1-8 "
        "dimensions and many scales; factorisation and solve residuals, acceptance exactly of positive definite covariances, "
        "symmetrisation laws, and untouched arguments. Non-trivial: at least 2 dimensions and a matrix that is not diagonal.")


@composite
def case(draw, tier):
    n = draw(st.integers(1, 8))
    return {"n": n, "P": draw(G.spd(n)), "kind": draw(st.sampled_from(["spd", "spd", "singular", "semi", "indefinite", "indefinite", "zeros"])), "rank": draw(st.integers(0, n - 1)),
            "scale": draw(st.one_of(st.integers(-4, 6), st.integers(-24, -5))), "jitter": draw(st.one_of(st.none(), st.sampled_from([0, 0.0, 1e-6, 1e-8, 1e-3]))), "B": draw(G.mat(n, draw(st.integers(1, 3)))),
            "lower": draw(st.booleans()), "skew": draw(st.sampled_from([0.0, 1e-14, 1e-3])), "X": draw(G.mat(n, n)), "assume": draw(st.sampled_from(["pos", "gen"])),
            "vec": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from Utils import linalg as L
    from StateModel import Gaussian
    n = c["n"]
    P = W.spd(c["P"])
    if c["kind"] in ("singular", "semi"):
        l = np.linalg.cholesky(P)[:, :c["rank"]]
        P = l @ l.T
    elif c["kind"] == "indefinite":
        w, V = np.linalg.eigh(P)
        w[0] = -abs(w[-1]) * 0.5
        P = W.sym((V * w) @ V.T)
    elif c["kind"] == "zeros":
        P = np.diag(np.diag(P) * (np.arange(n) < c["rank"]))
    P = P * 10.0 ** c["scale"]
    size = max(np.abs(P).max(), 1e-300)
    K = W.arr(c["X"])
    K = (K - K.T) * c["skew"] * size
    A = P + K
    keep = A.copy()
    jit = 1e-10 if c["jitter"] is None else c["jitter"]
    kw = {} if c["jitter"] is None else {"jitter": c["jitter"]}
    S = W.sym(A) + jit * np.eye(n)
    w = np.linalg.eigvalsh(S)
    safe = w[0] > 1e-12 * size
    ctx.label(c["kind"])
    # Cholesky factor of the symmetric part plus jitter
    try:
        C = np.asarray(L.jittered_chol(A, lower=c["lower"], **kw))
        ok = True
    except np.linalg.LinAlgError:
        ok = False
    if safe:
        W.require(ok, "the factorisation of a positive definite matrix fails (smallest eigenvalue %.3g)", w[0])
    if w[0] < -1e-12 * size:
        W.require(not ok, "an indefinite matrix was factorised")
    if ok:
        R = C @ C.T if c["lower"] else C.T @ C
        W.close("product of the Cholesky factors", R, S, 1e-10, 1e-16)
        T = np.triu(C, 1) if c["lower"] else np.tril(C, -1)
        W.require(not T.any() and np.all(np.diag(C) > 0), "the Cholesky factor is not %s triangular", "lower" if c["lower"] else "upper")
    W.require(np.array_equal(A, keep), "the factorisation changed its argument")
    # solve
    B = W.arr(c["B"])
    if c["vec"]:
        B = B[:, 0]
    keepB = B.copy()
    smin = np.abs(w).min()
    if smin > 1e-9 * size and smin > 1e-9 * jit:
        x = np.asarray(L.jittered_solve(A, B, assume_a=c["assume"], **kw))
        W.require(x.shape == B.shape, "the solution has shape %s for %s", x.shape, B.shape)
        W.close("residual of the solve", S @ x, B, 1e-6, 1e-6 * np.abs(B).max())
        ctx.label("solved")
    exactly = np.diag(np.where(np.arange(n) < max(1, c["rank"]), -jit, 1.0))  # singular once the jitter is added
    try:
        x = np.asarray(L.jittered_solve(exactly.copy(), np.ones(n), assume_a=c["assume"], **kw))
    except (np.linalg.LinAlgError, Warning):
        x = np.full(n, np.nan)
    W.require(not np.all(np.isfinite(x)), "the solve of a singular system returned %s", W.short(x))
    W.require(np.array_equal(A, keep) and np.array_equal(B, keepB), "the solve changed its arguments")
    # symmetric part
    X = W.arr(c["X"])
    given = X.copy()
    s = np.asarray(L.symmetrize(given))
    W.require(np.array_equal(given, X), "the symmetrisation changed its argument")
    W.require(np.array_equal(s, s.T), "the symmetric part is not symmetric")
    W.close("symmetric part", s, (X + X.T) / 2, 1e-14)
    W.close("symmetric part of a symmetric matrix", L.symmetrize(s), s, 1e-15)
    # acceptance of covariances
    for form in ("moment", "natural"):
        Q = W.sym(P)
        e = np.linalg.eigvalsh(Q)
        exact = c["kind"] == "zeros" and form == "moment"  # a diagonal matrix with a zero is singular without any rounding
        if not exact and np.abs(e).min() < 1e-9 * size or (form == "natural" and (np.trace(Q) < 1e-6 or np.abs(e).min() < 1e-5)):
            continue
        g = Gaussian(np.zeros(n), Q.copy()) if form == "moment" else Gaussian.from_natural(Q.copy(), np.zeros(n))
        try:
            L.validate_covariance(g)
            good = True
        except np.linalg.LinAlgError:
            good = False
        W.require(good == (e[0] > 0), "a %s covariance given by %s parameters was %s", "positive definite" if e[0] > 0 else
                  "singular" if exact else "indefinite", form,
                  "accepted" if good else "rejected")
        ctx.label("validated " + form)
    ctx.nontrivial(n >= 2 and np.abs(P - np.diag(np.diag(P))).max() > 0)
