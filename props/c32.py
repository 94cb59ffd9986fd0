"""Component metrics of the tracking experiments separate position, velocity and turn rate."""
from side import G, W, np, st, composite

N = {"quick": 400, "thorough": 10000}
RULE = ("Random beliefs over the five tracking components (correlated, scales from 0.03 to 30) and true states, for the "
        "smoother's metrics (states as vectors) and the graph's (states as rows); oracle: exact marginals of the belief and "
        "the textbook error and log-density of each. Non-trivial: at least 2 steps and the three parts differ.")


@composite
def case(draw, tier):
    n = draw(st.integers(1, 8))
    return {"P": [draw(G.spd(5, -1.5, 1.5)) for _ in range(n)], "m": draw(G.mat(n, 5, -8, 8)), "x": draw(G.mat(n, 5, -8, 8)),
            "which": draw(st.sampled_from(["graph", "smoother"])), "natural": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def check(c, ctx):
    from StateModel import Gaussian
    n = len(c["x"])
    ms, Ps, xs = [W.arr(m) for m in c["m"]], [W.spd(P) for P in c["P"]], [W.arr(x) for x in c["x"]]
    gs, ms, Ps = zip(*[W.belief(m, P, c["natural"]) for m, P in zip(ms, Ps)])
    gs = list(gs)
    if c["which"] == "graph":
        from Experiments.EP_Sweep_BearingsOnly import node_metrics
        from ExpectationPropagation.Nodes import build_nodes
        nodes = build_nodes(N=n, dim=5)
        for node, g in zip(nodes, gs):
            node.marginal = g
        got = node_metrics(nodes, [x[None, :].copy() for x in xs])
    else:
        from Experiments.IEKS_Sweep_BearingsOnly import componentwise_metrics
        got = componentwise_metrics(gs, [x.copy() for x in xs])
    W.require(len(got) == 6, "%d metrics instead of 6", len(got))
    parts = []
    for name, idx, r, l in (("position", [0, 2], 0, 1), ("velocity", [1, 3], 2, 3), ("turn rate", [4], 4, 5)):
        se, nl = [], []
        for m, P, x in zip(ms, Ps, xs):
            e, S = (x - m)[idx], P[np.ix_(idx, idx)]
            se.append(e @ e)
            nl.append(0.5 * (len(idx) * np.log(2 * np.pi) + np.linalg.slogdet(S)[1] + e @ np.linalg.solve(S, e)))
        W.require(np.size(got[r]) == 1 and np.size(got[l]) == 1, "%s metrics are not numbers: %s %s", name, W.short(got[r]), W.short(got[l]))
        W.close(name + " root mean squared error", np.ravel(got[r]), [np.sqrt(np.mean(se))], 1e-6, 1e-8)
        W.close(name + " negative log-likelihood", np.ravel(got[l]), [np.mean(nl)], 1e-5, 1e-5)
        parts.append(np.sqrt(np.mean(se)))
    ctx.label(c["which"])
    ctx.nontrivial(n >= 2 and len({round(p, 3) for p in parts}) == 3)
