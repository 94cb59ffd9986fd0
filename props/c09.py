"""Error metrics are the defined ones."""
from side import G, W, np, st, composite

N = {"quick": 500, "thorough": 15000}
RULE = ("Random lists of Gaussian beliefs (1-6 dimensions, 1-10 steps, now and then in units down to a millionth, built from moments or natural parameters) and true "
        "states given as vectors or as one-row matrices; oracle: the textbook log-density and root mean squared distance. "
        "Non-trivial: at least 2 steps and 2 dimensions.")


@composite
def case(draw, tier):
    d = draw(G.dims(6, 11))
    n = draw(st.one_of(*[st.integers(1, 10)] * 12, st.integers(60, 80)))
    d = min(d, 2) if n > 10 else d
    unit = draw(st.sampled_from([1] * 9 + [1e-3, 1.2345e-6]))
    return {"d": d, "unit": unit, "mode": draw(st.sampled_from(["moment", "natural"] if unit == 1 else ["moment"])),
            "states": [{"m": draw(G.vec(d, -5, 5)), "P": draw(G.spd(d, -1.5, 1.5)), "e": draw(st.sampled_from([0] * 9 + [3, 6, -3] if unit == 1 else [0]))} for _ in range(n)],
            "x": draw(G.mat(n, d, -8, 8)), "lost": draw(st.integers(0, n - 1)), "scale": draw(st.sampled_from([1] * 8 + [1e3, 1e6] if unit == 1 else [1])), "style": draw(st.sampled_from(["vec", "row"])),
            "container": draw(st.sampled_from(["list", "tuple"]))}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from StateModel import Gaussian
    from Utils.Metrics import nll, rmse, node_metrics
    from ExpectationPropagation.Nodes import build_nodes
    gs, want_n, want_s = [], [], []
    u = c.get("unit", 1)  # everything in smaller units
    for s, x in zip(c["states"], c["x"]):
        m, P, x = W.arr(s["m"]) * u, W.spd(s["P"]) * 10.0 ** s.get("e", 0) * u ** 2, W.arr(x) * c["scale"] * u
        if W.cond(P) > 1e8:  # a belief the code's density counts as degenerate (relative variance below 2e-10) is not compared
            P = P + 1e-7 * np.linalg.eigvalsh(P)[-1] * np.eye(len(P))
        g, m, P = W.belief(m, P, c["mode"] != "moment")
        gs.append(g)
        r = x - m
        want_n.append(0.5 * (len(m) * np.log(2 * np.pi) + np.linalg.slogdet(P)[1] + r @ np.linalg.solve(P, r)))
        want_s.append(float(r @ r))
    xs = [(W.arr(x)[None, :] if c["style"] == "row" else W.arr(x)) * c["scale"] * u for x in c["x"]]
    if c["container"] == "tuple":
        xs = tuple(xs)
    for g, x, a, b in zip(gs, xs, want_n, want_s):
        W.require(np.size(g.nll(x)) == 1, "log-likelihood of one state has %d entries", np.size(g.nll(x)))
        W.close("negative log-likelihood", np.ravel(g.nll(x)), [a], 1e-6, 1e-6)
        W.close("squared error", np.ravel(g.squared_error(x)), [b], 1e-7, 1e-9 * u ** 2)
    W.close("mean negative log-likelihood", nll(gs, xs), np.mean(want_n), 1e-6, 1e-6)
    W.close("root mean squared error", rmse(gs, xs), np.sqrt(np.mean(want_s)), 1e-7, 1e-9 * u)
    nodes = build_nodes(N=len(gs), dim=c["d"])
    for node, g in zip(nodes, gs):
        node.marginal = g
    r, l = node_metrics(nodes, xs)
    W.close("graph metric: root mean squared error", r, np.sqrt(np.mean(want_s)), 1e-7, 1e-9 * u)
    W.close("graph metric: negative log-likelihood", l, np.mean(want_n), 1e-6, 1e-6)
    # an error that is not defined is not passed over
    ys = list(xs)
    ys[c["lost"]] = xs[c["lost"]] * np.nan
    for what, fn in (("root mean squared error", rmse), ("negative log-likelihood", nll)):
        try:
            W.require(np.isnan(fn(gs, ys)), "one true state is not a number, but the %s is", what)
        except (ValueError, ArithmeticError):
            pass
    ctx.label(c["style"], c["mode"])
    ctx.nontrivial(len(gs) >= 2 and c["d"] >= 2)
