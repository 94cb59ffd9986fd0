"""The Lorenz 96 model integrates the documented equation."""
from side import G, W, np, st, composite
import os

N = {"quick": 150, "thorough": 4000}
RULE = ("Random states and batches in 1-40 dimensions, forcing, step and noise levels; the step is compared with an explicit "
        "index-by-index fourth-order Runge-Kutta step, the order of the scheme is checked by step halving, cyclic symmetry "
        "and the constant equilibrium hold; the generated start is compared with an own integration (regular forcing) or "
        "with bounds of the attractor (chaotic forcing), and a saved start is used as saved. Non-trivial: at least 4 "
        "dimensions and a state that is not constant.")


@composite
def case(draw, tier):
    d = draw(st.one_of(st.integers(1, 12), st.sampled_from([20, 40])))
    k = draw(st.integers(1, 4))
    rows = k if d <= 12 else 1
    return {"d": d, "x": draw(G.mat(rows, d, -8, 12)), "dt": draw(st.sampled_from([0.05, 0.05, 0.01, 0.02, 0.1])),
            "F": draw(st.one_of(st.just(8), st.just(0), G.num(-2, 10))), "q": draw(st.sampled_from([0.1, 1, 0.5])), "r": draw(st.sampled_from([1, 0.2, 4])),
            "explicit": draw(st.booleans()), "start": draw(st.sampled_from(["own"] * 7 + ["missing", "generate"])), "roll": draw(st.integers(1, 5)),
            "x0": draw(G.vec(min(d, 12), -5, 8))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for i, (d, F) in enumerate(((4, 0.7), (5, 1.5), (6, 8), (4, 8), (8, 3.7), (12, 0.25), (10, 6), (5, 2.5))):
        out.append({"d": d, "x": [[(3 * j) % 7 - 2.5 for j in range(d)]], "dt": 0.05, "F": F, "q": 0.1, "r": 1, "explicit": True,
                    "start": ["missing", "generate"][i % 2], "roll": 1, "x0": [1.0] * d})
        out.append(dict(out[-1], start=["generate", "missing"][i % 2]))
    return out


def rhs(x, F):
    n = len(x)
    i = np.arange(n)
    return (x[(i + 1) % n] - x[(i - 2) % n]) * x[(i - 1) % n] - x[i] + F


def step(x, dt, F):
    k1 = rhs(x, F)
    k2 = rhs(x + dt / 2 * k1, F)
    k3 = rhs(x + dt / 2 * k2, F)
    k4 = rhs(x + dt * k3, F)
    return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def check(c, ctx):
    from Systems import L96
    from MomentMatching import TaylorTransform
    from StateModel import Gaussian
    d = c["d"]
    X = W.arr(c["x"])
    x0 = np.resize(W.arr(c["x0"]), d)
    dt, F, q, r = (c["dt"], c["F"], c["q"], c["r"]) if c["explicit"] else (0.05, 8, 0.1, 1)
    kw = {"delta_t": dt, "F": F, "Q_sigma": q, "R_sigma": r} if c["explicit"] else {}
    start = c["start"]
    if start != "own" and (d < 4 or F < 0):
        start = "own"
    path = os.path.join(W.SCRATCH, "x0.npy")
    if start == "own":
        np.save(path, x0)
    elif os.path.exists(path):
        os.remove(path)
    if start == "generate":
        s = L96(dim=d, **kw)
    else:
        s = L96(dim=d, init_cond_path=path, **kw)
    ctx.label("start:" + start)
    W.require(s.system_dim == d and s.measurement_dim == d, "dimensions %s and %s", s.system_dim, s.measurement_dim)
    m0 = np.asarray(s.init_state.mean, float)
    W.require(m0.shape == (d,), "the initial mean has shape %s", m0.shape)
    if start == "own":
        W.close("saved start", m0, x0, 1e-12)
    else:
        W.require(np.all(np.isfinite(m0)), "the generated start is not finite")
        z = np.full((2, d), float(F))
        z[0, 0] += 0.01
        z[1, 0] += 0.01 + 1e-11
        for _ in range(999):
            z = step(z.T, 0.05, F).T
        if np.abs(z[0] - z[1]).max() < 1e-7:  # the forcing is not chaotic in this dimension
            W.close("generated start", m0, z[0], 1e-5, 1e-5)
            ctx.label("start compared")
        elif F >= 6 and d >= 8:
            W.require(np.abs(m0).max() < 4 * F + 10, "the generated start leaves the attractor: %s", W.short(m0))
            W.require(np.std(m0) > 0.2, "the generated start is still at the unstable equilibrium: %s", W.short(m0))
    W.close("initial covariance", np.asarray(s.init_state.cov, float), np.eye(d))
    W.close("process noise", np.asarray(s.system_noise.cov, float), q * np.eye(d), 1e-12)
    W.close("measurement noise", np.asarray(s.measurement_noise.cov, float), r * np.eye(d), 1e-12)
    got = np.asarray(s.transition(x=X, t=0.7), float)
    W.require(got.shape == X.shape, "moving %d states gave shape %s", len(X), got.shape)
    for i, x in enumerate(X):
        W.close("step from %s" % W.short(x), got[i], step(x, dt, F), 1e-10, 1e-10)
    W.close("step of one state", np.ravel(s.transition(X[0], t=1.0, u=0.0)), step(X[0], dt, F), 1e-10, 1e-10)
    W.close("measurement", np.asarray(s.measurement(x=X), float), X ** 2, 1e-12)
    W.close("measurement of one state", np.ravel(s.measurement(x=X[0])), X[0] ** 2, 1e-12)
    for big in (9.0, 1e3, 1e-4):
        W.close("measurement of a state far out", np.asarray(s.measurement(x=big * X), float), (big * X) ** 2, 1e-12)
    for big in (30.0, 1e3):
        far = np.asarray(s.transition(x=big * X), float)
        for i, x in enumerate(X):
            W.close("step from far out, %s" % W.short(big * x), far[i], step(big * x, dt, F), 1e-9, 1e-9)
    rolled = np.asarray(s.transition(x=np.roll(X, c["roll"], axis=1)), float)
    W.close("step of a rotated state", rolled, np.roll(got, c["roll"], axis=1), 1e-10, 1e-10)
    eq = np.ravel(s.transition(np.full(d, float(F))))
    W.close("step from the equilibrium", eq, np.full(d, float(F)), 1e-12, 1e-12)
    # fourth order: the local error drops by about 2**5 when the step is halved
    if d <= 12:
        def run(h, n):
            z = X[0]
            for _ in range(n):
                z = step(z, h, F)
            return z
        fine = run(dt / 16, 16)
        e = np.abs(got[0] - fine).max()
        coarse = np.abs(run(dt / 2, 2) - fine).max()
        if coarse > 1e-9 and e > 1e-6 and dt <= 0.05:
            W.require(e < 200 * coarse, "the step is not of fourth order: %.2g and %.2g", e, coarse)
        J = np.zeros((d, d))
        for j in range(d):
            h = 1e-5
            a, b = X[0].copy(), X[0].copy()
            a[j] += h
            b[j] -= h
            J[:, j] = (step(a, dt, F) - step(b, dt, F)) / (2 * h)
        mean, S, C = TaylorTransform(dim=d)(lambda z: s.transition(z), Gaussian(X[0].copy(), np.eye(d)))
        W.close("linearised step", np.asarray(C, float).T, J, 1e-5, 1e-6)
    ctx.label("d=%d" % d if d >= 20 else "d<=12", "F=8" if F == 8 else "other F")
    ctx.nontrivial(d >= 4 and np.ptp(X[0]) > 0)
