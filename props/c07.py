"""Products, quotients and powers of beliefs are those of their densities."""
from side import G, W, np, st, composite

N = {"quick": 700, "thorough": 20000}
RULE = ("Random expressions (products, quotients, powers, copies, unit and linear factors) over 2-4 random Gaussians in 1-6 dimensions given by "
        "moments or by natural parameters; the result is compared with the exact natural parameters and, where it is a "
        "density, with pointwise log-densities. Non-trivial: at least 2 operations of at least 2 kinds.")


@composite
def case(draw, tier):
    d = draw(st.integers(1, 6))
    k = draw(st.integers(2, 4))
    leaves = [{"mode": draw(st.sampled_from(["moment", "natural"])), "m": draw(G.vec(d, -5, 5)), "P": draw(G.spd(d)),
               "touch": draw(st.sampled_from(["", "mean", "cov", "precision", "shift"])),
               "scale": draw(st.sampled_from([0, 0, 0, 0, 4, 8, -4]))} for _ in range(k)]
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("mul"), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just("div"), st.integers(0, 9), st.integers(0, 9)),
        st.tuples(st.just("pow"), st.integers(0, 9), st.sampled_from([2, 0.5, 3, 1, 0.2, 1.0, 0.0, 0, -1, -2, -0.5, 1.7])),
        st.tuples(st.just("copy"), st.integers(0, 9), st.just(0)),
        st.tuples(st.just("unit"), st.integers(0, 9), st.just(0)),
        st.tuples(st.just("linear"), st.integers(0, 9), st.integers(0, 2)),
        st.tuples(st.just("unlinear"), st.integers(0, 9), st.integers(0, 2))), min_size=1, max_size=6))
    return {"d": d, "leaves": leaves, "ops": [list(o) for o in ops], "x": draw(G.mat(3, d, -4, 4))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from StateModel import Gaussian
    d = c["d"]
    vals = []   # (Gaussian, precision, shift, linear combination of leaves, magnitude)
    leaves = []
    for i, l in enumerate(c["leaves"]):
        m, P = W.arr(l["m"]), W.spd(l["P"]) * 10.0 ** l.get("scale", 0)
        L, s = W.to_natural(m, P)
        if l["mode"] == "moment":
            g = Gaussian(m.copy(), P.copy())
        else:
            g = Gaussian.from_natural(precision=L.copy(), shift=s.copy())
        if l["touch"]:
            getattr(g, l["touch"])
        e = np.zeros(len(c["leaves"]))
        e[i] = 1
        leaves.append((m, P))
        vals.append((g, L, s, e, max(np.abs(L).max(), np.abs(s).max())))
    kinds = set()
    for op, i, j in c["ops"]:
        a = vals[i % len(vals)]
        if op == "mul" or op == "div":
            b = vals[j % len(vals)]
            g = a[0] * b[0] if op == "mul" else a[0] / b[0]
            sg = 1 if op == "mul" else -1
            e = None if a[3] is None or b[3] is None else a[3] + sg * b[3]
            new = (g, a[1] + sg * b[1], a[2] + sg * b[2], e, a[4] + b[4])
        elif op == "pow":
            new = (a[0] ** j, j * a[1], j * a[2], None if a[3] is None else j * a[3], (abs(j) + 1e-6) * a[4])
        elif op == "copy":
            new = (a[0].copy(),) + a[1:]
        elif op in ("linear", "unlinear"):  # a factor exp(s.x) has no precision of its own
            s = W.arr(c["x"][j])
            f = Gaussian.from_natural(precision=np.zeros((d, d)), shift=s.copy())
            new = (a[0] * f, a[1], a[2] + s) if op == "linear" else (a[0] / f, a[1], a[2] - s)
            new += (None, a[4] + np.abs(s).max())
        else:
            new = (a[0] * Gaussian.as_factor(d),) + a[1:]
        kinds.add(op)
        W.require(isinstance(new[0], Gaussian), "%s does not give a Gaussian", op)
        vals.append(new)
    ctx.nontrivial(len(c["ops"]) >= 2 and len(kinds) >= 2)
    for l in c["leaves"]:
        ctx.label(l["mode"])
    for n, (g, L, s, e, mag) in enumerate(vals):
        what = "value %d of %s" % (n, c["ops"])
        W.require(g.dim == d, "%s: dimension %s instead of %d", what, g.dim, d)
        W.close(what + ": precision", g.precision, L, 0, 1e-8 * mag)
        W.close(what + ": shift", g.shift, s, 0, 1e-8 * mag)
        if W.min_eig(L) > 1e-6 * mag and W.cond(L) < 1e6 and np.trace(L) > 1e-9:  # below that a belief counts as vague
            m, P = W.to_moment(L, s)
            tol = 1e-7 * W.cond(L) * mag / np.abs(L).max()
            if tol < 1e-3:
                W.close_state(what, g, m, P, rtol=tol, atol=1e-8)
                if e is None:
                    continue
                # pointwise: log g - sum e_i log leaf_i does not depend on x
                cs = []
                for x in c["x"]:
                    x = W.arr(x)
                    cs.append(-float(g.nll(x)) - sum(ei * -0.5 * (x - lm) @ np.linalg.solve(lP, x - lm)
                                                     for ei, (lm, lP) in zip(e, leaves)))
                lim = 1e-6 + tol * (1 + max(abs(v) for v in cs)) * 1e2 + tol * mag * 1e2
                W.require(max(cs) - min(cs) < lim, "%s: log-density does not match its factors pointwise: %s", what, cs)
                ctx.label("density")
    # algebra on the leaves: quotient undoes product, commutativity, associativity, powers add
    a, b = vals[0][0], vals[1][0]
    m, P = leaves[0]
    back = (a * b) / b
    tol = 1e-9 * (vals[0][4] + vals[1][4]) / min(1, W.min_eig(vals[0][1])) * W.cond(P)
    if tol < 1e-3 and np.trace(vals[0][1]) > 1e-9:
        W.close_state("(p*q)/q against p", back, m, P, rtol=tol, atol=tol)
        W.close_state("p**0.3 * p**0.7 against p", (a ** 0.3) * (a ** 0.7), m, P, rtol=tol, atol=tol)
        W.close_state("(p**4)**0.25 against p", (a ** 4) ** 0.25, m, P, rtol=tol, atol=tol)
    W.close("p*q against q*p", (a * b).precision, (b * a).precision, 1e-12)
    ident = a / a
    W.close("p/p: precision", ident.precision, np.zeros((d, d)), 0, 1e-9 * vals[0][4])
