"""Power EP and damped EP reach the exact posterior of linear-Gaussian models."""
from side import G, W, np, st, composite

N = {"quick": 120, "thorough": 3000}
RULE = ("Random linear-Gaussian models (time- and input-dependent motion), any power in (0,1], any damping, sweep or "
        "node-by-node schedule; oracle: conditioning of the joint Gaussian. Non-trivial: at least 2 steps and power or "
        "damping different from 1, or the node-by-node schedule.")
ASSUMPTIONS = ["prior and noise standard deviations between 0.03 and 15, so that the vague initial belief of precision "
               "1e-10 stays negligible"]


@composite
def case(draw, tier):
    mode = draw(st.sampled_from(["once", "once", "damped", "nodewise"]))
    n = draw(G.length(4, None if mode == "damped" else 12))
    spec = draw(G.model(dmax=3 if tier == "quick" else 5, linear=True, h_time=False, sharp="all"))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"])), "tt": draw(G.transform()), "mt": draw(G.transform()),
            "mode": mode, "power": draw(G.powers()), "fargs": draw(st.booleans()),
            "t0": draw(st.sampled_from([0.0, 2.5])), "u": draw(G.num(-1, 1)),
            "damping": draw(st.sampled_from([0.9, 0.7, 0.6, 0.5])) if mode == "damped" else draw(st.sampled_from([1, 1.0])),
            "more": draw(st.integers(0, 3))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n, mode, power) in enumerate(((1, 1, 50, "once", 0.5), (2, 1, 26, "nodewise", 0.7), (7, 3, 4, "once", 0.3), (1, 1, 30, "damped", 1.0))):
        spec, y = G.steady(d, m, n, 20 + k, linear=True)
        ut = {"alpha": 1, "beta": 2, "kappa": 1, "kind": "UT"}
        out.append({"model": spec, "y": y, "tt": ut, "mt": {"kind": "TT"}, "mode": mode, "power": power, "fargs": False, "t0": 0.0, "u": 0.0,
                    "damping": 0.8 if mode == "damped" else 1, "more": 1})
    return out


def check(c, ctx):
    from ExpectationPropagation.Iterations import ep_fwd_back_updates, ep_update
    mod = W.Model(c["model"])
    ys = [W.arr(y) for y in c["y"]]
    n = len(ys)
    t0, u = (c["t0"], c["u"]) if c["fargs"] else (0.0, 0.0)
    fargs = [{"t": t0 + i * mod.dt, "u": u} for i in range(n)] if c["fargs"] else None
    system = mod.system()
    nodes = W.build_graph(mod, system, W.make_transform(c["tt"], mod.d), W.make_transform(c["mt"], mod.d), c["y"],
                          c["power"], c["damping"], fargs)
    full = W.ref_linear_posterior(mod, ys, mod.m0, mod.P0, t0, u)
    csize = W.cov_size(full, [(0, mod.P0)])
    if "sharp" in mod.s:
        ctx.label("sharp, " + mod.s["sharp"][0])
    ctx.label(c["mode"], "power=1" if c["power"] == 1 else "power<1")
    ctx.nontrivial(n >= 2 and (c["power"] != 1 or c["damping"] != 1 or c["mode"] == "nodewise"))
    if c["mode"] == "once":
        sweeps = 1 + c["more"]
        for s in range(sweeps):
            ep_fwd_back_updates(nodes)
            for k, node in enumerate(nodes):
                W.close_state("sweep %d, node %d of %d" % (s + 1, k, n), node.marginal, *full[k], rtol=1e-5, atol=1e-6, catol=1e-6 * csize)
        return
    if c["mode"] == "damped":
        for s in range(50):
            ep_fwd_back_updates(nodes)
        tol = dict(rtol=1e-4, atol=1e-5, catol=1e-5 * csize)
    else:
        for s in range(n + 1 + c["more"]):
            ep_update(nodes)
        tol = dict(rtol=1e-5, atol=1e-6, catol=1e-6 * csize)
    for k, node in enumerate(nodes):
        W.close_state("%s, after convergence, node %d of %d" % (c["mode"], k, n), node.marginal, *full[k], **tol)
    before = [(node.marginal.mean.copy(), node.marginal.cov.copy()) for node in nodes]
    ep_fwd_back_updates(nodes)
    for k, node in enumerate(nodes):
        W.close_state("one more sweep moved node %d" % k, node.marginal, *before[k], **tol)
