"""The growth and constant-velocity models are the published ones, for one state or a batch."""
from side import G, W, np, st, composite

N = {"quick": 500, "thorough": 12000}
RULE = ("Random states, batches, times, step sizes, noise levels and sensor layouts (default, none given, 1-6 custom); "
        "motion, measurement, Jacobians, noise covariances and initial distribution against the published formulas, "
        "bearings through complex arguments and under joint translation and rotation. Non-trivial: a batch, a custom "
        "sensor layout or a non-zero time.")


@composite
def case(draw, tier):
    k = draw(st.integers(1, 6))
    which = draw(st.sampled_from(["ungm", "bot", "bot"]))
    c = {"which": which, "x": draw(G.mat(k, 1 if which == "ungm" else 4, -25, 25)), "t": draw(st.one_of(st.integers(0, 100), G.num(-5, 60))),
         "single": draw(st.booleans())}
    if which == "bot":
        c.update(sensors=draw(st.one_of(st.just("default"), st.just("none"), st.lists(G.vec(2, -30, 30), min_size=1, max_size=6))),
                 dt=draw(st.sampled_from([0.1, 1, 0.5, 2.0, 0.01, 30.0])), q=draw(st.sampled_from([0.01, 0.1, 1, 2.5])),
                 r=draw(st.sampled_from([0.001, 0.01, 1.0])), shift=draw(G.vec(2, -20, 20)), turn=draw(G.num(-3, 3)),
                 explicit=draw(st.booleans()))
    else:
        c["steps"] = draw(st.integers(1, 5))
    return c


def strategy(tier):
    return case(tier)


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def check(c, ctx):
    from MomentMatching import TaylorTransform
    from StateModel import Gaussian
    X = W.arr(c["x"])
    t = c["t"]
    if c["single"]:
        X = X[:1]
    k = len(X)
    ctx.label(c["which"], "batch" if k > 1 else "single")
    if c["which"] == "ungm":
        from Systems import UniformNonlinearGrowthModel
        s = UniformNonlinearGrowthModel()
        W.close("process noise", np.asarray(s.system_noise.cov, float), np.array([[1.0]]))
        W.close("measurement noise", np.asarray(s.measurement_noise.cov, float), np.array([[10.0]]))
        W.close("initial mean", np.asarray(s.init_state.mean, float), np.zeros(1))
        W.close("initial covariance", np.asarray(s.init_state.cov, float), np.array([[5.0]]))
        W.require(s.dt == 1, "the step is %s", s.dt)
        f = lambda x, t: x / 2 + 25 * x / (1 + x * x) + 8 * np.cos(1.2 * t)
        df = lambda x: 0.5 + 25 * (1 - x * x) / (1 + x * x) ** 2
        got = np.asarray(s.transition(x=X, t=t), float)
        W.close("motion", got, f(X, t), 1e-12, 1e-12)
        W.close("measurement", np.asarray(s.measurement(x=X), float), X ** 2 / 20, 1e-12, 1e-12)
        W.close("motion of one state", np.asarray(s.transition(X[0], t=t, u=0.3), float), f(X[0], t), 1e-12, 1e-12)
        tt = TaylorTransform(dim=1)
        g = Gaussian(X[0].copy(), np.eye(1))
        m, S, C = tt(lambda x: s.transition(x, t=t), g)
        W.close("Jacobian of the motion", np.asarray(C, float).reshape(1, 1), df(X[0]).reshape(1, 1), 1e-10, 1e-10)
        m, S, C = tt(s.measurement, g)
        W.close("Jacobian of the measurement", np.asarray(C, float).reshape(1, 1), X[0].reshape(1, 1) / 10, 1e-10, 1e-10)
        ctx.nontrivial(t != 0 or k > 1)
        return
    from Systems import BearingsOnlyTracking
    from Systems.BearingsOnlyTracking import Sensor
    kw = {}
    if c["sensors"] == "default":
        sensors = [(-10, 10), (10, 10), (-10, -10), (10, -10)]
    elif c["sensors"] == "none":
        sensors = [(-10, 10), (10, 10), (-10, -10), (10, -10)]
        kw["sensor_list"] = None
    else:
        sensors = [tuple(p) for p in c["sensors"]]
        kw["sensor_list"] = [Sensor(x=a, y=b) for a, b in sensors]
    if c["explicit"]:
        kw.update(delta_t=c["dt"], Q_sigma=c["q"], R_sigma=c["r"])
    dt, q, r = (c["dt"], c["q"], c["r"]) if c["explicit"] else (0.1, 0.01, 0.001)
    s = BearingsOnlyTracking(**kw)
    I2 = np.eye(2)
    W.close("process noise", np.asarray(s.system_noise.cov, float), q * np.block([[dt ** 3 / 3 * I2, dt ** 2 / 2 * I2], [dt ** 2 / 2 * I2, dt * I2]]), 1e-12)
    W.close("measurement noise", np.asarray(s.measurement_noise.cov, float), r * np.eye(len(sensors)), 1e-12)
    W.require(s.measurement_dim == len(sensors) and s.system_dim == 4, "dimensions %s and %s", s.system_dim, s.measurement_dim)
    W.close("initial mean", np.asarray(s.init_state.mean, float), np.array([0, 0, 1.0, 0]))
    W.close("initial covariance", np.asarray(s.init_state.cov, float), 0.1 * np.eye(4))
    F = np.block([[I2, dt * I2], [0 * I2, I2]])
    got = np.asarray(s.transition(x=X, t=t), float)
    W.close("motion", got, np.array([F @ x for x in X]), 1e-12, 1e-12)
    W.close("motion of one state", np.ravel(s.transition(X[0], t=t, u=0.2)), F @ X[0], 1e-12, 1e-12)
    Y = np.asarray(s.measurement(x=X), float)
    want = np.array([[np.angle((x[0] - a) + 1j * (x[1] - b)) for a, b in sensors] for x in X])
    W.require(Y.shape == want.shape, "measurements of %d states by %d sensors have shape %s", k, len(sensors), Y.shape)
    far = np.array([[np.hypot(x[0] - a, x[1] - b) > 1e-6 for a, b in sensors] for x in X])
    W.require(np.all(np.abs(wrap(Y - want))[far] < 1e-9), "bearings %s, expected %s", W.short(Y), W.short(want))
    W.require(np.all(np.abs(Y) <= np.pi + 1e-12), "a bearing leaves (-pi, pi]")
    one = np.ravel(s.measurement(x=X[0]))
    W.close("bearings of one state", one, Y[0], 1e-12, 1e-12)
    # moving target and sensors together changes no bearing, turning them together adds the angle
    if c["sensors"] not in ("default", "none"):
        ang, sh = c["turn"], W.arr(c["shift"])
        Rm = np.array([[np.cos(ang), -np.sin(ang)], [np.sin(ang), np.cos(ang)]])
        s2 = BearingsOnlyTracking(sensor_list=[Sensor(*(Rm @ np.array(p) + sh)) for p in sensors])
        X2 = np.array([np.concatenate([Rm @ x[:2] + sh, Rm @ x[2:]]) for x in X])
        Y2 = np.asarray(s2.measurement(x=X2), float)
        W.require(np.all(np.abs(wrap(Y2 - Y - ang))[far] < 1e-6), "bearings do not turn with the scene: %s and %s", W.short(Y), W.short(Y2))
        ctx.label("turned scene")
    # Jacobian of the bearings
    if far[0].all():
        m, S, C = TaylorTransform(dim=4)(s.measurement, Gaussian(X[0].copy(), np.eye(4)))
        J = np.zeros((len(sensors), 4))
        for i, (a, b) in enumerate(sensors):
            dx, dy = X[0][0] - a, X[0][1] - b
            J[i, :2] = np.array([-dy, dx]) / (dx * dx + dy * dy)
        W.close("Jacobian of the bearings", np.asarray(C, float).T, J, 1e-7, 1e-9)
    ctx.nontrivial(k > 1 or "sensor_list" in kw)
