"""Moments and natural parameters describe one density, in whatever order they are read."""
from side import G, W, np, st, composite

N = {"quick": 700, "thorough": 20000}
RULE = ("Random Gaussians in 1-8 dimensions, variances from 1e-6 to 1e6, built from moments or natural parameters, then "
        "read through a random sequence of properties, copies, comparisons and uses; every read has to agree with the "
        "exact parameters and with earlier reads, and the caller's arrays stay untouched. Non-trivial: at least 2 "
        "dimensions or a scale outside [0.01, 100], and at least 3 distinct reads.")

READS = ["mean", "cov", "precision", "shift", "dim", "chol_cov", "copy", "use", "eq", "repr", "sample"]


@composite
def case(draw, tier):
    d = draw(st.integers(1, 8))
    return {"d": d, "mode": draw(st.sampled_from(["moment", "natural", "positional", "from_natural"])),
            "m": draw(G.vec(d, -10, 10)), "P": draw(G.spd(d, -1, 1)), "scale": draw(st.integers(-6, 7)),
            "reads": draw(st.lists(st.sampled_from(READS), min_size=1, max_size=10)), "shift": draw(G.vec(d, -1, 1)),
            "delta": draw(st.sampled_from([1e-7, 0.05, 1.0]))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from StateModel import Gaussian
    from StateModel.Gaussian import moment_to_natural, natural_to_moment
    d = c["d"]
    k = 10.0 ** c["scale"]
    P = W.spd(c["P"]) * k
    m = W.arr(c["m"]) * np.sqrt(k)
    L, s = W.to_natural(m, P)
    cnd = W.cond(P)
    # natural_to_moment treats traces below 1e-10 as no information, which these scales never reach
    mine = (m.copy(), P.copy(), L.copy(), s.copy())
    natural = c["mode"] in ("natural", "from_natural")
    if c["mode"] == "moment":
        g = Gaussian(mean_vec=mine[0], cov_mat=mine[1])
    elif c["mode"] == "positional":
        g = Gaussian(mine[0], mine[1])
    elif c["mode"] == "natural":
        g = Gaussian(precision_mat=mine[2], shift_vec=mine[3])
    else:
        g = Gaussian.from_natural(precision=mine[2], shift=mine[3])
    tol = 1e-12 * max(1e2, cnd)
    jit = 1e-9 * (1 + max(np.abs(L).max(), np.abs(P).max())) if cnd > 1e12 else 0.0
    seen = {}

    def expect(obj, name, who):
        if name == "mean":
            W.close(who + " mean", obj.mean, m, 0, tol * (np.abs(m).max() + np.sqrt(np.abs(P).max())) + 1e-14)
        elif name == "cov":
            W.close(who + " covariance", obj.cov, P, tol)
        elif name == "precision":
            W.close(who + " precision", obj.precision, L, tol)
        elif name == "shift":
            W.close(who + " shift", np.ravel(obj.shift), s, 0, tol * (np.abs(L).max() * np.abs(m).max() + np.abs(s).max() + 1e-14))
        elif name == "dim":
            W.require(obj.dim == d, "%s dimension is %s, not %d", who, obj.dim, d)
        elif name == "chol_cov":
            C = obj.chol_cov
            W.close(who + " Cholesky factor squared", C @ C.T, P, tol)
            W.require(np.allclose(C, np.tril(C)), "%s Cholesky factor is not lower triangular", who)

    for r in c["reads"]:
        if r == "copy":
            h = g.copy()
            for name in ("shift", "mean", "precision", "cov", "dim"):
                expect(h, name, "copy's")
        elif r == "use":
            h = (g * g) / g
            W.require(h.dim == d, "combination changed the dimension")
        elif r == "eq":
            W.require(bool(g == g), "a Gaussian differs from itself")
        elif r == "repr":
            repr(g), str(g)
        elif r == "sample":
            x = g.sample(2)
            W.require(np.shape(x) == (2, d), "two samples have shape %s", np.shape(x))
        else:
            expect(g, r, "read")
            v = np.array(getattr(g, r), dtype=float)
            if r in seen:
                W.require(np.array_equal(seen[r], v), "%s changed between two reads", r)
            seen[r] = v
    for name in ("mean", "cov", "precision", "shift", "dim"):
        expect(g, name, "final")
    for a, b, name in zip(mine, (m, P, L, s), ("mean", "covariance", "precision", "shift")):
        W.require(np.array_equal(a, b), "the %s array handed in by the caller was modified", name)
    L2, s2 = moment_to_natural(m.copy(), P.copy())
    W.close("moment_to_natural precision", L2, L, tol)
    m2, P2 = natural_to_moment(L.copy(), s.copy())
    W.close("natural_to_moment covariance", P2, P, tol)
    # equality sees real differences and ignores rounding
    dm = W.arr(c["shift"])
    if np.abs(dm).max() > 0:
        dm = dm / np.abs(dm).max()
        other = Gaussian(m + c["delta"] * dm * (1 + np.abs(m).max()), P.copy())
        same = bool(g == other)
        sym = bool(other == g)
        if c["delta"] >= 0.05:
            W.require(not same and not sym, "Gaussians with means %s apart compare equal", c["delta"])
        else:
            W.require(same and sym, "Gaussians with means 1e-7 apart compare different")
        fat = Gaussian(m.copy(), P * (1 + c["delta"]) + c["delta"] * np.eye(d))
        W.require(bool(g == fat) == (c["delta"] < 0.01), "equality of covariances %s apart is wrong", c["delta"])
    if np.abs(m).max() > 0.1:
        mirror = Gaussian(-m, P.copy())
        W.require(not bool(g == mirror) and not bool(mirror == g), "Gaussians with opposite means compare equal")
    if np.abs(P).max() > 1 and cnd < 1e3:  # the same for beliefs given by natural parameters, however small those are
        a = Gaussian.from_natural(L.copy(), s.copy())
        for factor, shift in ((1.0, 0.0), (1.2, 0.0), (1.0, 0.2)):
            m3 = m + shift * (1 + np.abs(m).max())
            L3, s3 = W.to_natural(m3, P * factor)
            b = Gaussian.from_natural(L3, s3)
            same = factor == 1 and shift == 0
            W.require(bool(a == b) == same and bool(b == a) == same, "two Gaussians given by natural parameters, %s, compare %s",
                      "equal" if same else "different covariances" if factor > 1 else "different means", "different" if same else "equal")
    if d >= 2 and k >= 1 and cnd < 1e3:  # covariances that differ in one correlation only
        i, j = sorted((len(c["reads"]) % d, (len(c["reads"]) + 1 + len(c["mode"]) % (d - 1)) % d))
        D = np.zeros((d, d))
        D[i, j] = D[j, i] = 0.5 * W.min_eig(P)
        if i != j and D.max() > 0.01 + 0.01 * np.abs(P).max():
            one = Gaussian(m.copy(), P + D)
            W.require(not bool(g == one) and not bool(one == g), "Gaussians with correlations %s apart compare equal", D.max())
            ctx.label("correlation only")
    v = Gaussian.as_marginal(d)
    W.close("vague belief's mean", v.mean, np.zeros(d))
    W.require(W.min_eig(v.cov) >= 1e6, "the vague belief is not vague")
    f = Gaussian.as_factor(d)
    W.close("unit factor's precision", f.precision, np.zeros((d, d)))
    W.close("unit factor's shift", np.ravel(f.shift), np.zeros(d))
    # messages that are no densities keep their parameters too, read or not
    for what, h, Lh, sh in (("unit factor", f, 0 * L, 0 * s), ("message of negative precision", Gaussian.from_natural(-L, s.copy()), -L, s),
                            ("indefinite message", Gaussian.from_natural(L - np.trace(L) * np.eye(d), s.copy()), L - np.trace(L) * np.eye(d), s)):
        for r in c["reads"]:
            if r in ("mean", "cov", "precision", "shift", "dim"):
                getattr(h, r)
            elif r == "copy":
                h = h.copy()
        h = h.copy()
        W.close("precision of a copied " + what, np.asarray(h.precision, float), Lh, 1e-13)
        W.close("shift of a copied " + what, np.ravel(h.shift), sh, 1e-13)
    ctx.label(c["mode"], "scale %d" % c["scale"])
    ctx.nontrivial((d >= 2 or abs(c["scale"]) > 2) and len(set(c["reads"])) >= 3)
