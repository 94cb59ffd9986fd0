"""Plotted bands are the beliefs' own means and 95 % intervals."""
from side import G, W, np, st, composite

N = {"quick": 200, "thorough": 2500}
RULE = ("Random lists of beliefs (1-4 dimensions, 1-60 steps, by moments or natural parameters) and samples of curves; the "
        "vertices of the drawn bands and lines are read back from the figure and compared with mean +- 1.96 standard "
        "deviations (beliefs) or mean +- one population standard deviation (samples of curves). Non-trivial: at least 2 steps.")
SHARDS = 4


@composite
def case(draw, tier):
    n = draw(st.one_of(st.integers(1, 15), st.integers(1, 15), st.integers(1, 15), st.integers(16, 60)))
    kind = draw(st.sampled_from(["gaussian", "node", "node", "curves"]))
    d = draw(st.integers(1, 4 if n < 16 else 2))
    return {"kind": kind, "n": n, "d": d, "m": draw(G.mat(n, d, -9, 9)), "P": draw(st.lists(G.spd(d), min_size=n, max_size=n)),
            "natural": draw(st.booleans()), "wide": draw(st.sampled_from([0] * 5 + [4, 10])), "truth": draw(st.one_of(st.none(), G.vec(n, -9, 9), G.vec(n, -900, 900))), "label": draw(st.sampled_from([None, "a"])),
            "own_axes": draw(st.booleans()), "lost": draw(st.booleans()), "copies": draw(st.sampled_from([1, 1, 40])), "samples": draw(G.mat(draw(st.integers(1, 5)), n, -9, 9))}


def strategy(tier):
    return case(tier)


def setup():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot


def band(poly, xs):
    """Lower and upper edge of a filled band at the given abscissas."""
    v = np.concatenate([p.vertices for p in poly.get_paths()])
    lo = np.array([v[np.abs(v[:, 0] - x) < 1e-9, 1].min() for x in xs])
    hi = np.array([v[np.abs(v[:, 0] - x) < 1e-9, 1].max() for x in xs])
    return lo, hi


def check(c, ctx):
    import matplotlib.pyplot as plt
    from Utils.Plot_Helper import plot_gaussian, plot_gaussian_node, plot_1d_data
    from StateModel import Gaussian
    n, d = c["n"], c["d"]
    plt.close("all")
    ms, Ps = [W.arr(m) for m in c["m"]], [W.spd(P) for P in c["P"]]
    gs, ms, Ps = zip(*[W.belief(m, P, c["natural"]) for m, P in zip(ms, Ps)])
    gs = list(gs)
    if c.get("wide"):  # beliefs nothing is known about yet
        gs, Ps = [Gaussian(m.copy(), P * 10.0 ** c["wide"]) for m, P in zip(ms, Ps)], [P * 10.0 ** c["wide"] for P in Ps]
    mean = np.array([m[0] for m in ms])
    sd = np.array([np.sqrt(P[0, 0]) for P in Ps])
    ctx.label(c["kind"])
    ctx.nontrivial(n >= 2)
    if c["kind"] == "gaussian":
        plot_gaussian(gs, label=c["label"])
        ax = plt.gca()
        W.require(len(ax.collections) == 1, "%d bands were drawn", len(ax.collections))
        lo, hi = band(ax.collections[0], np.arange(n))
        W.close("lower edge", lo, mean - 1.96 * sd, 1e-7, 1e-7)
        W.close("upper edge", hi, mean + 1.96 * sd, 1e-7, 1e-7)
    elif c["kind"] == "node":
        class Node:
            def __init__(self, g):
                self.marginal = g
        ax0 = plt.figure().gca() if c["own_axes"] else None
        kw = {} if c["truth"] is None else {"ground_truth": np.array(c["truth"])}
        ax = plot_gaussian_node([Node(g) for g in gs], ax=ax0, **kw)
        if ax0 is not None:
            W.require(ax is ax0, "the plot went to other axes")
        xs = np.arange(1, n + 1)
        lo, hi = band(ax.collections[0], xs)
        W.close("lower edge", lo, mean - 1.96 * sd, 1e-7, 1e-7)
        W.close("upper edge", hi, mean + 1.96 * sd, 1e-7, 1e-7)
        lines = {l.get_label(): l for l in ax.lines}
        W.require("Prediction" in lines, "no line of the means")
        W.close("abscissas of the means", np.asarray(lines["Prediction"].get_xdata(), float), xs.astype(float))
        W.close("line of the means", np.asarray([l for l in ax.lines if l.get_label() in ("Prediction", "_child0")][0].get_ydata(), float).ravel(), mean, 1e-7, 1e-9)
        W.require(("Ground truth" in lines) == (c["truth"] is not None), "the line of the true states is %s", "missing" if c["truth"] else "drawn")
        if c["truth"] is not None:
            W.close("line of the true states", np.asarray(lines["Ground truth"].get_ydata(), float).ravel(), W.arr(c["truth"]))
    else:
        X = W.arr(c["samples"])
        X = np.vstack([X * (1 - 0.1 * i) for i in range(c["copies"])])
        ax = plot_1d_data(X, label=c["label"], ax=plt.figure().gca() if c["own_axes"] else None)
        xs = np.arange(1, n + 1)
        W.close("line of the mean", np.asarray(ax.lines[0].get_ydata(), float), X.mean(0), 1e-9, 1e-9)
        W.close("abscissas of the mean", np.asarray(ax.lines[0].get_xdata(), float), xs.astype(float))
        W.require((len(ax.collections) > 0) == (len(X) > 1), "%d bands for %d curves", len(ax.collections), len(X))
        if len(X) > 1:
            lo, hi = band(ax.collections[0], xs)
            s = np.sqrt(((X - X.mean(0)) ** 2).mean(0))
            W.close("lower edge", lo, X.mean(0) - s, 1e-7, 1e-7)
            W.close("upper edge", hi, X.mean(0) + s, 1e-7, 1e-7)
        if c["lost"]:  # a curve that is not defined at one point has no mean there
            Y = X.copy()
            Y[len(Y) // 2, n // 2] = np.nan
            got = np.asarray(plot_1d_data(Y, ax=plt.figure().gca()).lines[0].get_ydata(), float)
            W.require(np.isnan(got[n // 2]), "the mean of values one of which is not a number is drawn as %s", got[n // 2])
    plt.close("all")
