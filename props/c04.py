"""Every belief is the product of its messages, whatever the order of the updates."""
from side import G, W, np, st, composite

N = {"quick": 260, "thorough": 8000}
RULE = ("Histories of forward, measurement and backward updates on random nodes (or whole sweeps) of random nonlinear "
        "graphs with any power and damping; after every step the belief is compared with the initial vague belief times "
        "the three messages. Non-trivial: at least 6 updates that changed a belief, and power or damping not 1.")


@composite
def case(draw, tier):
    n = draw(st.integers(1, 5))
    spec = draw(G.model(dmax=3 if tier == "quick" else 5, h_time=False, sharp=True))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["fwd", "meas", "back"]), st.integers(0, n - 1)),
        st.tuples(st.sampled_from(["sweep", "filter", "smooth", "nodewise"]), st.just(0))), min_size=1, max_size=14))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"])), "tt": draw(G.transform()), "mt": draw(G.transform()),
            "power": draw(G.powers()), "damping": draw(G.dampings()), "ops": [list(o) for o in ops],
            "init": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n) in enumerate(((1, 1, 70), (7, 2, 4))):
        spec, y = G.steady(d, m, n, 30 + k)
        ut = {"alpha": 1, "beta": 2, "kappa": 1, "kind": "UT"}
        out.append({"model": spec, "y": y, "tt": ut, "mt": {"kind": "TT"}, "power": 0.8, "damping": 0.7,
                    "ops": [["sweep", 0], ["nodewise", 0], ["sweep", 0]][:3 - k], "init": False})
    return out


def expand(ops, n):
    f = [(o, i) for i in range(n) for o in ("fwd", "meas")]
    b = [("back", i) for i in reversed(range(n))]
    out = []
    for o, i in ops:
        if o == "sweep":
            out += f + b
        elif o == "filter":
            out += f
        elif o == "smooth":
            out += b
        elif o == "nodewise":
            out += [(p, j) for j in range(n) for p in ("fwd", "meas", "back")]
        else:
            out.append((o, i))
    return out


OWN = {"fwd": "forward_factor", "meas": "measurement_factor", "back": "back_factor"}


def check(c, ctx):
    from scipy.linalg import LinAlgWarning
    mod = W.Model(c["model"])
    n = len(c["y"])
    nodes = W.build_graph(mod, mod.system(), W.make_transform(c["tt"], mod.d), W.make_transform(c["mt"], mod.d), c["y"],
                          c["power"], c["damping"])
    a = float(c["power"])
    snaps = [W.node_snapshot(x) for x in nodes]
    base = [(s["marginal"][0] - sum(s[k][0] for k in W.FACTORS) / a, s["marginal"][1] - sum(s[k][1] for k in W.FACTORS) / a)
            for s in snaps]
    for b in base:
        W.require(0 <= np.abs(b[0]).max() < 1e-6 and np.abs(b[1]).max() < 1e-6, "the initial belief is not vague: %s", W.short(b[0]))
    top = 1.0
    changed = 0
    for step, (op, i) in enumerate(expand(c["ops"], n)):
        try:
            W.run_op(nodes[i], op)
        except LinAlgWarning:  # a solve too ill-conditioned to trust
            ctx.label("update gave up")
        new = [W.node_snapshot(x) for x in nodes]
        for j in range(n):
            if j != i:
                W.require(W.same_snapshot(new[j], snaps[j]), "%s update of node %d changed node %d", op, i, j)
        for k in W.FACTORS:
            if k != OWN[op]:
                W.require(np.array_equal(new[i][k][0], snaps[i][k][0]) and np.array_equal(new[i][k][1], snaps[i][k][1]),
                          "%s update of node %d changed its %s", op, i, k)
        changed += not W.same_snapshot(new[i], snaps[i])
        s = new[i]
        if not all(np.all(np.isfinite(s[k][0])) and np.all(np.isfinite(s[k][1])) for k in s):
            ctx.label("overflow")
            return
        top = max([top] + [np.abs(s[k][q]).max() / a for k in s for q in (0, 1)])
        if top > 1e12:
            ctx.label("diverging")
            return
        for q, what in ((0, "precision"), (1, "shift")):
            want = base[i][q] + sum(s[k][q] for k in W.FACTORS) / a
            W.close("step %d (%s node %d): %s of the belief against its messages" % (step, op, i, what), s["marginal"][q],
                    want, 0, 1e-9 * top)
        snaps = new
    if "sharp" in mod.s:
        ctx.label("sharp, " + mod.s["sharp"][0])
    ctx.label("power=1" if a == 1 else "power<1", "damped" if c["damping"] != 1 else "undamped")
    ctx.nontrivial(changed >= 6 and (a != 1 or c["damping"] != 1))
