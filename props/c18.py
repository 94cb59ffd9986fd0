"""Simulated trajectories follow the model."""
from side import G, W, np, st, composite

N = {"quick": 170, "thorough": 5000}
RULE = ("Random nonlinear models with time-dependent motion, noise with any mean and covariance (also zero), given or sampled "
        "starting state, any start time and step; with zero noise the trajectory is the exact recursion, with noise the "
        "residuals are whitened and held to 7 standard errors (moments, serial and cross correlation), and the start is "
        "checked against the initial distribution. Times, seeds, shapes and the caller's arrays are checked as well. "
        "Non-trivial: a time-dependent or nonlinear model with at least 2 steps.")
ASSUMPTIONS = ["the statistical bounds are 7 standard errors and the draws are a deterministic function of the case"]


@composite
def case(draw, tier):
    spec = draw(G.model(dmax=4, control=False, h_time=False))
    return {"model": spec, "mode": draw(st.sampled_from(["exact", "exact", "noisy", "noisy", "start"])), "n": draw(st.integers(0, 12)),
            "long": draw(st.sampled_from([100, 250])), "t0": draw(st.sampled_from([0.0, 0.0, 1.0, -2.5, 7.25])),
            "x0": draw(st.one_of(st.none(), G.vec(spec["d"], -4, 4), G.vec(spec["d"], -4, 4), st.just([0.0] * spec["d"]))), "seed": draw(st.integers(0, 2 ** 31)),
            "base": draw(st.booleans()), "wmean": draw(G.vec(spec["d"])), "vmean": draw(G.vec(spec["m"])),
            "shared": draw(st.integers(0, 4)) == 4, "identity": draw(st.booleans()), "intx0": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def build(c, mod, Q, R, wm, vm, times):
    from Systems import DynamicSystemModel, GaussianNoise
    from Systems.DynamicSystem import DynamicSystem
    from StateModel import Gaussian
    wn, vn = GaussianNoise(dimension=mod.d, cov=Q, mean=wm), GaussianNoise(dimension=mod.m, cov=R, mean=vm)
    if c["shared"]:
        vn = wn
    init = Gaussian(mod.m0.copy(), mod.P0.copy())

    def f(x, t=None, u=None):
        times.append(t)
        return x if c["identity"] else mod.f(x, t, u)

    def h(x, t=None, u=None):
        return mod.h(x, t, u)

    if not c["base"]:
        return DynamicSystemModel(system_dim=mod.d, measurement_dim=mod.m, transition=f, measurement=h, system_noise=wn,
                                  measurement_noise=vn, init_distribution=init, dt=mod.dt)

    class Own(DynamicSystem):
        def transition(self, x, u=None, t=None, *args, **kwargs):
            return f(x, t=t, u=u)

        def measure(self, x, *args, **kwargs):
            return h(x)
    s = Own()
    s.system_noise, s.measurement_noise, s.init_state, s.dt = wn, vn, init, mod.dt
    return s


def moments(what, z):
    """Whitened residuals: zero mean, unit covariance, no serial correlation."""
    n, k = z.shape
    W.close("mean of " + what, z.mean(0), np.zeros(k), 0, 7 / np.sqrt(n))
    W.close("covariance of " + what, z.T @ z / n, np.eye(k), 0, 7 * np.sqrt(2.0 / n))
    W.close("serial correlation of " + what, z[1:].T @ z[:-1] / (n - 1), np.zeros((k, k)), 0, 7 / np.sqrt(n - 1))


def check(c, ctx):
    mod = W.Model(c["model"])
    mod.A = 0.6 * mod.A
    d, m = mod.d, mod.m
    zero = c["mode"] == "exact"
    Q, R = (np.zeros((d, d)), np.zeros((m, m))) if zero else (mod.Q, mod.R)
    wm, vm = W.arr(c["wmean"]), W.arr(c["vmean"])
    if c["shared"]:  # one noise source for both
        if d != m:
            c = dict(c, shared=False)
        else:
            R, vm, mod.R = Q, wm, mod.Q
            ctx.label("one noise source")
    if c["base"]:
        ctx.label("own class")
    times = []
    system = build(c, mod, Q.copy(), R.copy(), wm.copy(), vm.copy(), times)
    ctx.label(c["mode"], "identity motion" if c["identity"] else "model motion")
    fns = [(lambda x: x) if c["identity"] else None]

    def f(k, x):
        return x if c["identity"] else mod.rf(c["t0"] + k * mod.dt)[0](x)
    h = mod.rh()[0]
    if c["mode"] == "start":
        # the start is drawn from the initial distribution
        if not c["identity"]:
            c = dict(c, identity=True)
            system = build(c, mod, np.zeros((d, d)), R, np.zeros(d), vm, times)
        else:
            system = build(c, mod, np.zeros((d, d)), R, np.zeros(d), vm, times)
        np.random.seed(c["seed"])
        xs = np.array([np.ravel(system.simulate(1)[0][0]) for _ in range(500)])
        moments("the whitened starting states", np.linalg.solve(np.linalg.cholesky(mod.P0), (xs - mod.m0).T).T)
        ctx.nontrivial(d >= 2)
        return
    n = c["n"] if zero else c["long"]
    kw = {"t_zero": c["t0"]} if c["t0"] else {}
    x0 = None
    if c["x0"] is not None:
        x0 = W.arr(c["x0"])
        if c["intx0"]:
            x0 = np.round(x0).astype(int)
    if x0 is not None:
        keep = x0.copy()
        kw["x_zero"] = x0
    np.random.seed(c["seed"])
    data = system.simulate(n, **kw)
    W.require(len(data) == n, "%d steps were asked for and %d returned", n, len(data))
    frozen = [(np.array(x, float), np.array(y, float)) for x, y in data]
    times = [t for i, t in enumerate(times) if i == 0 or t != times[i - 1]]
    W.require(len(times) == n, "the motion was evaluated at %d times for %d steps", len(times), n)
    for k, t in enumerate(times):
        W.close("time handed to the motion at step %d" % k, np.asarray(t, float), np.asarray(c["t0"] + k * mod.dt), 1e-9, 1e-9)
    xs = [np.ravel(x) for x, _ in frozen]
    ys = [np.ravel(y) for _, y in frozen]
    for k in range(n):
        W.require(xs[k].shape == (d,) and ys[k].shape == (m,), "step %d: state %s and measurement %s", k, frozen[k][0].shape, frozen[k][1].shape)
    if x0 is not None:
        W.require(np.array_equal(x0, keep), "the starting state handed in was modified")
    for i in range(min(n, 20)):
        for j in range(i):
            W.require(not np.shares_memory(data[i][0], data[j][0]) and not np.shares_memory(data[i][1], data[j][1]),
                      "steps %d and %d share memory", j, i)
        W.require(not np.shares_memory(data[i][0], data[i][1]), "state and measurement of step %d share memory", i)
    ctx.nontrivial(n >= 2 and (mod.s["fk"] != "none" or "ft" in mod.s or not zero))
    if zero:
        prev = x0 if x0 is not None else None
        for k in range(n):
            if prev is not None:
                W.close("noise-free state %d" % k, xs[k], f(k, prev) + wm, 1e-9, 1e-9)
            W.close("noise-free measurement %d" % k, ys[k], h(xs[k]) + vm, 1e-9, 1e-9)
            prev = xs[k]
    else:
        prev = [x0 if x0 is not None else None] + xs[:-1]
        lo = 0 if x0 is not None else 1
        big = max(np.abs(x).max() for x in xs)
        if big > 1e4:
            ctx.label("diverging")
            return
        w = np.array([xs[k] - f(k, prev[k]) - wm for k in range(lo, n)])
        v = np.array([ys[k] - h(xs[k]) - vm for k in range(lo, n)])
        zw = np.linalg.solve(np.linalg.cholesky(mod.Q), w.T).T
        zv = np.linalg.solve(np.linalg.cholesky(mod.R), v.T).T
        moments("the whitened process noise", zw)
        moments("the whitened measurement noise", zv)
        W.close("correlation of process and measurement noise", zw.T @ zv / len(zw), np.zeros((d, m)), 0, 7 / np.sqrt(len(zw)))
        W.close("correlation of measurement noise with the next process noise", zw[1:].T @ zv[:-1] / (len(zw) - 1), np.zeros((d, m)), 0,
                7 / np.sqrt(len(zw) - 1))
    np.random.seed(c["seed"])
    again = system.simulate(min(n, 30), **kw)
    for k in range(min(n, 30)):
        W.close("state %d simulated again with the same seed" % k, np.ravel(again[k][0]), xs[k], 1e-9, 1e-12)
        W.close("measurement %d simulated again with the same seed" % k, np.ravel(again[k][1]), ys[k], 1e-9, 1e-12)
    if n and not zero:
        other = system.simulate(2, **kw)
        W.require(not np.array_equal(np.ravel(other[0][0]), xs[0]), "two successive simulations are identical")
    for k in range(n):
        W.require(np.array_equal(np.array(data[k][0], float), frozen[k][0]) and np.array_equal(np.array(data[k][1], float), frozen[k][1]),
                  "step %d of the first simulation was changed by a later one", k)
