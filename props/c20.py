"""The turning-target model moves on circles at constant speed and measures bearings."""
from side import G, W, np, st, composite

N = {"quick": 500, "thorough": 12000}
RULE = ("Random states with turn rates from straight motion to fast turns (either sign, also exactly and nearly zero), step "
        "sizes, noise levels and sensors; motion against the complex-exponential solution and its Jacobian, composition of "
        "steps, conserved speed, rotational symmetry; bearings, noise covariances and initial distribution. Non-trivial: a "
        "batch, a turn rate other than the default or custom sensors.")


@composite
def case(draw, tier):
    k = draw(st.integers(1, 5))
    w = st.one_of(G.num(-3, 3), G.num(-3, 3), G.num(-9, 9), st.sampled_from([0.0, 1e-3, -1e-3, 1e-4, 1e-5, -1e-5, 1e-6, 1e-8, -1e-8, 1e-12, 2e-4, -9e-5]))
    x = [draw(G.vec(4, -2000, 2000, 10)) + [draw(w)] for _ in range(k)]
    return {"x": x, "dt": draw(st.sampled_from([1, 1, 0.5, 2.0, 0.1, 3])), "dt2": draw(st.sampled_from([0.5, 1.5, 2.0, 0.25])),
            "sensors": draw(st.one_of(st.just("default"), st.just("none"), st.lists(G.vec(2, -5000, 5000, 10), min_size=1, max_size=6))),
            "q": draw(st.sampled_from([[0.1, 1.75e-4], [1.0, 0.01], [2, 0.5]])), "r": draw(st.sampled_from([[3e-3], [0.5], 0.01, "each"])),
            "explicit": draw(st.booleans()), "turn": draw(G.num(-3, 3)), "t": draw(st.sampled_from([0.0, 3.0]))}


def strategy(tier):
    return case(tier)


def turn(x, dt):
    """Constant speed on a circle: position integrates v exp(i w s)."""
    p, v, w = x[0] + 1j * x[2], x[1] + 1j * x[3], x[4]
    a = w * dt
    if abs(a) < 1e-3:
        integral = dt * (1 + 1j * a / 2 - a ** 2 / 6 - 1j * a ** 3 / 24 + a ** 4 / 120)
    else:
        integral = (np.exp(1j * a) - 1) / (1j * w)
    p2, v2 = p + v * integral, v * np.exp(1j * a)
    return np.array([p2.real, v2.real, p2.imag, v2.imag, w])


def jac(x, dt):
    v, w = x[1] + 1j * x[3], x[4]
    a = w * dt
    if abs(a) < 1e-3:
        S = dt * (1 + 1j * a / 2 - a ** 2 / 6 - 1j * a ** 3 / 24)
        dS = dt * dt * (0.5j - a / 3 - 1j * a ** 2 / 8 + a ** 3 / 30)
    else:
        e = np.exp(1j * a)
        S = (e - 1) / (1j * w)
        dS = dt * e / w - (e - 1) / (1j * w * w)
    e = np.exp(1j * a)
    J = np.zeros((5, 5))
    J[0, 0] = J[2, 2] = J[4, 4] = 1
    for col, d in ((1, 1), (3, 1j)):
        J[0, col], J[2, col] = (d * S).real, (d * S).imag
        J[1, col], J[3, col] = (d * e).real, (d * e).imag
    J[0, 4], J[2, 4] = (v * dS).real, (v * dS).imag
    dv = v * e * 1j * dt
    J[1, 4], J[3, 4] = dv.real, dv.imag
    return J


def check(c, ctx):
    from Systems import BearingsOnlyTrackingTurn
    from Systems.BearingOnlyTrackingTurn import Sensor
    from MomentMatching import TaylorTransform
    from StateModel import Gaussian
    X = W.arr(c["x"])
    k = len(X)
    kw = {}
    default = [(-20000, 20000), (20000, 20000), (-20000, -20000), (20000, -20000)]
    sensors = default
    if c["sensors"] == "none":
        kw["sensor_list"] = None
    elif c["sensors"] != "default":
        sensors = [tuple(p) for p in c["sensors"]]
        kw["sensor_list"] = [Sensor(x=a, y=b) for a, b in sensors]
    dt, q, r = 1, [0.1, 1.75e-4], np.sqrt(10) * 1e-3
    if c["explicit"]:
        dt, q, r = c["dt"], c["q"], np.ravel(c["r"])[0] if c["r"] != "each" else 1e-3 * (1 + np.arange(len(sensors)))
        kw.update(delta_t=dt, Q_sigma=list(q), R_sigma=c["r"])
        if c["r"] == "each":  # one deviation per sensor
            kw["R_sigma"] = r.tolist()
    s = BearingsOnlyTrackingTurn(**kw)
    M = np.array([[dt ** 3 / 3, dt ** 2 / 2], [dt ** 2 / 2, dt]])
    Q = np.zeros((5, 5))
    Q[:2, :2] = Q[2:4, 2:4] = q[0] * M
    Q[4, 4] = dt * q[1]
    W.close("process noise", np.asarray(s.system_noise.cov, float), Q, 1e-12)
    W.close("measurement noise", np.asarray(s.measurement_noise.cov, float), r ** 2 * np.eye(len(sensors)), 1e-12)
    W.require(s.measurement_dim == len(sensors) and s.system_dim == 5, "dimensions %s and %s", s.system_dim, s.measurement_dim)
    W.close("initial mean", np.asarray(s.init_state.mean, float), np.array([1000, 300, 1000, 0, -3 * np.pi / 180]))
    W.close("initial covariance", np.asarray(s.init_state.cov, float), np.diag([100, 10, 100, 10, 1e-4]))
    got = np.asarray(s.transition(x=X, t=c["t"]), float)
    want = np.array([turn(x, dt) for x in X])
    W.require(got.shape == (k, 5), "moving %d states gave shape %s", k, got.shape)
    for i in range(k):
        W.close("motion of %s" % W.short(X[i]), got[i], want[i], 1e-10, 1e-9)
        v0, v1 = np.hypot(X[i][1], X[i][3]), np.hypot(got[i][1], got[i][3])
        W.close("speed after the step", np.asarray(v1), np.asarray(v0), 1e-10, 1e-9)
        W.require(got[i][4] == X[i][4], "the turn rate changed")
        if abs(X[i][4]) < 1e-3:
            ctx.label("nearly straight")
    W.close("motion of one state", np.ravel(s.transition(X[0], t=c["t"], u=0.1)), want[0], 1e-10, 1e-9)
    # two steps are one longer step
    d2 = c["dt2"]
    s2 = BearingsOnlyTrackingTurn(delta_t=d2)
    s3 = BearingsOnlyTrackingTurn(delta_t=dt + d2)
    W.close("two steps against one longer step", np.asarray(s2.transition(x=got), float), np.asarray(s3.transition(x=X), float), 1e-9, 1e-8)
    # turning the scene turns the motion
    e = np.exp(1j * c["turn"])

    def spin(x):
        p, v = (x[0] + 1j * x[2]) * e, (x[1] + 1j * x[3]) * e
        return np.array([p.real, v.real, p.imag, v.imag, x[4]])
    turned = np.asarray(s.transition(x=np.array([spin(x) for x in X])), float)
    W.close("motion of a turned scene", turned, np.array([spin(x) for x in got]), 1e-9, 1e-8)
    # Jacobians
    x = X[0]
    mean, S, C = TaylorTransform(dim=5)(lambda z: s.transition(z, t=c["t"]), Gaussian(x.copy(), np.eye(5)))
    W.close("linearised motion at %s" % W.short(x), np.asarray(C, float).T, jac(x, dt), 1e-6, 1e-6)
    # bearings
    Y = np.asarray(s.measurement(x=X), float)
    B = np.array([[np.angle((z[0] - a) + 1j * (z[2] - b)) for a, b in sensors] for z in X])
    far = np.array([[np.hypot(z[0] - a, z[2] - b) > 1e-3 for a, b in sensors] for z in X])
    W.require(Y.shape == B.shape, "measurements of %d states by %d sensors have shape %s", k, len(sensors), Y.shape)
    W.require(np.all(np.abs(Y) <= np.pi + 1e-12), "bearings outside [-pi, pi]: %s", W.short(Y))
    diff = np.abs((Y - B + np.pi) % (2 * np.pi) - np.pi)
    W.require(np.all(diff[far] < 1e-9), "bearings %s, expected %s", W.short(Y), W.short(B))
    W.close("bearings of one state", np.ravel(s.measurement(x=X[0])), Y[0], 1e-12, 1e-12)
    if far[0].all():
        m, S, C = TaylorTransform(dim=5)(s.measurement, Gaussian(x.copy(), np.eye(5)))
        J = np.zeros((len(sensors), 5))
        for i, (a, b) in enumerate(sensors):
            dx, dy = x[0] - a, x[2] - b
            J[i, 0], J[i, 2] = -dy / (dx * dx + dy * dy), dx / (dx * dx + dy * dy)
        W.close("linearised bearings", np.asarray(C, float).T, J, 1e-7, 1e-9)
        W.close("bearings at the mean", np.ravel(m), Y[0], 1e-12, 1e-12)
    ctx.label("custom sensors" if sensors is not default else "default sensors", "batch" if k > 1 else "single")
    ctx.nontrivial(k > 1 or sensors is not default or x[4] != 0)
