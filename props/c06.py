"""Each power-EP update with damping is the documented one."""
from side import G, W, np, st, composite
from props.c04 import expand

N = {"quick": 260, "thorough": 8000}
RULE = ("Histories of single updates and sweeps on random nonlinear graphs with any power up to 2 and damping, some with a message rescaled (belief and message alike) in between; every "
        "update is recomputed from the public state before it by an independent implementation (analytic Taylor or "
        "explicit sigma points, cavity, 1/power noise, damped message). Non-trivial: at least 5 updates compared with "
        "power or damping not 1.")
ASSUMPTIONS = ["updates whose cavity or projection is not safely positive definite in the reference are not compared "
               "(they are covered by the rejection property)"]


@composite
def case(draw, tier):
    n = draw(st.integers(1, 5))
    spec = draw(G.model(dmax=3 if tier == "quick" else 5, h_time=False, emin=-1))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["fwd", "meas", "back"]), st.integers(0, n - 1)),
        st.tuples(st.sampled_from(["sweep", "sweep", "filter", "smooth", "nodewise"]), st.just(0)),
        st.tuples(st.just("jolt"), st.integers(0, n - 1))), min_size=0, max_size=6))
    pre = draw(st.sampled_from([["sweep", 0], ["filter", 0], ["nodewise", 0]]))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"])), "tt": draw(G.transform()), "mt": draw(G.transform()),
            "power": draw(G.strong_powers()), "damping": draw(G.dampings()),
            "jolt": draw(st.lists(st.tuples(st.sampled_from(["forward_factor", "measurement_factor", "back_factor"]), G.num(-0.4, 1.6)).map(list), min_size=1, max_size=3)), "ops": [pre] + [list(o) for o in ops],
            "own": draw(st.one_of(st.none(), st.lists(G.dampings(), min_size=n, max_size=n))), "fargs": draw(st.booleans()), "t0": draw(st.sampled_from([0.0, 1.5])), "u": draw(G.num(-1, 1))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n) in enumerate(((1, 1, 40), (2, 1, 30), (7, 2, 3))):
        spec, y = G.steady(d, m, n, 40 + k)
        ut = {"alpha": 1, "beta": 2, "kappa": 1, "kind": "UT"}
        out.append({"model": spec, "y": y, "tt": ut if k else {"kind": "TT"}, "mt": {"kind": "TT"}, "power": 0.8, "damping": 0.7,
                    "jolt": [["forward_factor", 1.0]], "ops": [["sweep", 0], ["nodewise", 0]][:2 - (k > 0)], "own": None, "fargs": False, "t0": 0.0, "u": 0.0})
    return out


def jolt(node, which, e):
    """Another state of the graph in which the belief is still the product of its messages."""
    from StateModel import Gaussian
    s = W.node_snapshot(node)
    (L, h), (B, b) = s[which], s["marginal"]
    B, b = B + (e - 1) * L, b + (e - 1) * h
    if W.min_eig(B) > 1e-3 * max(1e-6, np.abs(B).max()):
        setattr(node, which, Gaussian.from_natural(e * L, e * h))
        node.marginal = Gaussian.from_natural(B, b)


def check(c, ctx):
    mod = W.Model(c["model"])
    ys = [W.arr(y) for y in c["y"]]
    n = len(ys)
    t0, u = (c["t0"], c["u"]) if c["fargs"] else (0.0, 0.0)
    fargs = [{"t": t0 + i * mod.dt, "u": u} for i in range(n)] if c["fargs"] else None
    nodes = W.build_graph(mod, mod.system(), W.make_transform(c["tt"], mod.d), W.make_transform(c["mt"], mod.d), c["y"],
                          c["power"], c["damping"], fargs)
    a, g = float(c["power"]), [float(c["damping"])] * n
    if c.get("own"):  # every node equipped on its own
        from ExpectationPropagation.Nodes import node_estimator
        from MomentMatching.Estimator import Estimator
        g = [float(x) for x in c["own"]]
        for node, x in zip(nodes, c["own"]):
            node_estimator([node], Estimator(trans_map=W.make_transform(c["tt"], mod.d), meas_map=W.make_transform(c["mt"], mod.d),
                                             trans_noise=mod.Q.copy(), meas_noise=mod.R.copy(), power=c["power"], damping=x))
        ctx.label("own dampings")
    times = [t0 + i * mod.dt for i in range(n)]
    compared = skipped = 0
    own = {"fwd": "forward_factor", "meas": "measurement_factor", "back": "back_factor"}
    for step, (op, i) in enumerate(expand(c["ops"], n)):
        if op == "jolt":
            jolt(nodes[i], *c["jolt"][step % len(c["jolt"])])
            continue
        snaps = [W.node_snapshot(x) for x in nodes]
        rounding = 0.0
        try:
            args = (op, i, snaps, mod, c["tt"], c["mt"], ys, a, g[i], times, u, (mod.m0, mod.P0))
            want = W.ref_ep_update(*args)
            if want is None:
                want = (snaps[i]["marginal"], "back_factor", snaps[i]["back_factor"])
            else:
                rounding = W.ep_sensitivity(want, *args)
        except (W.NotComparable, np.linalg.LinAlgError):
            want = None
        W.run_op(nodes[i], op)
        if want is None:
            skipped += 1
            continue
        got = W.node_snapshot(nodes[i])
        before = snaps[i]
        mag = max([1.0] + [np.abs(x[q]).max() for x in list(before.values()) + [want[0], want[2]] for q in (0, 1)])
        if i + 1 < n and op == "back":
            mag = max(mag, *[np.abs(snaps[i + 1][k][q]).max() for k in snaps[i + 1] for q in (0, 1)])
        if mag > 1e7 or rounding > 1e-4 * mag:
            skipped += 1
            continue
        compared += 1
        ctx.label(op)
        for what, gs, ws in (("belief", got["marginal"], want[0]), (want[1], got[own[op]], want[2])):
            for q, name in ((0, "precision"), (1, "shift")):
                W.close("step %d (%s update of node %d): %s of the %s" % (step, op, i, name, what), gs[q], ws[q], 0,
                        1e-6 * mag + 10 * rounding)
    ctx.label("power=1" if a == 1 else "power<1" if a < 1 else "power>1", "damped" if g[0] != 1 else "undamped", c["tt"]["kind"])
    ctx.nontrivial(compared >= 5 and (a != 1 or any(x != 1 for x in g)))
    if skipped > compared:
        ctx.label("mostly skipped")
