"""Oracles and builders used by the checks, inside the repository's interpreter.

Everything named ref_* is written from the published formulas with plain numpy and does not call /repo.
"""
import numpy as np
import autograd.numpy as anp

SCRATCH = None


class Violation(Exception):
    pass


class Discard(Exception):
    pass


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def arr(x):
    return np.array(x, dtype=float)


def short(x):
    return np.array2string(np.asarray(x), precision=10, threshold=30).replace("\n", " ")[:300]


def close(what, got, want, rtol=1e-8, atol=1e-12, scale=None):
    """Norm-wise comparison; shapes have to agree."""
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    require(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    if got.size == 0:
        return
    require(np.all(np.isfinite(got)), "%s is not finite: %s", what, short(got))
    s = np.max(np.abs(want)) if scale is None else scale
    err = np.max(np.abs(got - want))
    require(err <= atol + rtol * s, "%s: off by %.3g (allowed %.3g); got %s, expected %s",
            what, err, atol + rtol * s, short(got), short(want))


def is_close(got, want, rtol, atol):
    try:
        close("", got, want, rtol, atol)
        return True
    except Violation:
        return False


def sym(a):
    return (a + a.T) / 2


def spd(spec, rank=None):
    n = len(spec["diag"])
    L = np.zeros((n, n))
    for i in range(n):
        L[i, :i] = spec["low"][i]
        L[i, i] = spec["diag"][i]
    D = np.diag([10.0 ** e for e in spec["e"]])
    M = (D @ L)[:, :rank]
    return sym(M @ M.T)


def close_cov(what, got, want, rtol=1e-8, atol=1e-12):
    """Covariances are compared relative to the standard deviations of their components."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, "%s: shape %s, expected %s", what, got.shape, want.shape)
    require(np.all(np.isfinite(got)), "%s is not finite: %s", what, short(got))
    s = np.sqrt(np.abs(np.diag(want)))
    tol = atol + rtol * np.outer(s, s)
    require(np.all(np.abs(got - want) <= tol), "%s: off by %.3g; got %s, expected %s",
            what, np.max(np.abs(got - want)), short(got), short(want))


def close_state(what, g, m, P, rtol=1e-8, atol=1e-12, catol=None):
    m, P = np.asarray(m, float), np.asarray(P, float)
    mean = np.asarray(g.mean, float)
    require(mean.size == m.size, "%s mean: shape %s, expected %s", what, mean.shape, m.shape)
    require(mean.ndim == 1, "%s mean is not a vector: shape %s", what, mean.shape)
    close(what + " mean", mean, m, rtol, atol, scale=np.max(np.abs(m)) + np.sqrt(np.max(np.abs(P))))
    close(what + " covariance", g.cov, P, rtol, atol if catol is None else catol)


def cov_size(*states):
    """The size of the largest of some covariances, at most 1: covariances are compared on this scale."""
    return min(1.0, max(np.abs(s[1]).max() for group in states for s in group))


def min_eig(P):
    return np.linalg.eigvalsh(sym(np.asarray(P, float))).min()


def pd(P, tol=0.0):
    P = np.asarray(P, float)
    return bool(np.all(np.isfinite(P)) and min_eig(P) > tol)


def cond(P):
    w = np.linalg.eigvalsh(sym(P))
    return np.inf if w.min() <= 0 else w.max() / w.min()


# ---------------------------------------------------------------- models from their description
def stable(A, bound=1.1):
    A = arr(A)
    return A / max(1.0, np.linalg.norm(A, 2) / bound)


class Model:
    """The functions of a generated state-space model, with their analytic Jacobians."""

    def __init__(self, s):
        self.s = s
        self.d, self.m, self.dt = s["d"], s["m"], s["dt"]
        self.A, self.H = stable(s["A"]), arr(s["H"])
        self.b, self.c = arr(s["b"]), arr(s["c"])
        self.B = arr(s["B"]) if "B" in s else None
        self.G = arr(s["G"]) if "G" in s else None
        self.Q, self.R = spd(s["Q"], s.get("qrank")), spd(s["R"])
        self.m0, self.P0 = arr(s["m0"]), spd(s["P0"])
        self.unit = 1.0  # the size of the variances
        if "sharp" in s:
            small = 10.0 ** (-2 * s["sharp"][1])
            self.R = self.R * small
            if s["sharp"][0] == "all":
                self.Q, self.P0, self.unit = self.Q * small, self.P0 * small, small
        self.o = arr(s["o"]) if "o" in s else np.zeros(self.d)  # the model is written around this point
        self.m0 = self.m0 + self.o

    # coefficient of the linear part and the offset at a given time and input
    def _ft(self, t, u):
        s = self.s
        t = 0.0 if t is None else t
        u = 0.0 if u is None else u
        A, b = self.A, self.b
        if "ft" in s:
            A = A * (1 + s["At"] * np.sin(t + 0.5))
            b = b + arr(s["ft"]) * np.cos(s["fw"] * t)
        if "fu" in s:
            b = b + arr(s["fu"]) * u
        if "o" in s:
            b = b + self.o - A @ self.o
        return A, b

    def _ht(self, t, u):
        s = self.s
        t = 0.0 if t is None else t
        u = 0.0 if u is None else u
        H, c = self.H, self.c
        if "ht" in s:
            H = H * (1 + s["Ht"] * np.cos(t))
            c = c + arr(s["ht"]) * np.sin(0.7 * t)
        if "hu" in s:
            c = c + arr(s["hu"]) * u
        if "o" in s:
            c = c - H @ self.o
        return H, c

    @staticmethod
    def _nl(kind, z, np_):
        if kind == "sin":
            return np_.sin(z)
        if kind == "tanh":
            return np_.tanh(z)
        if kind == "rat":
            return z / (1 + z ** 2)
        return 0.25 * z ** 2

    @staticmethod
    def _dnl(kind, z):
        if kind == "sin":
            return np.cos(z)
        if kind == "tanh":
            return 1 - np.tanh(z) ** 2
        if kind == "rat":
            return (1 - z ** 2) / (1 + z ** 2) ** 2
        return 0.5 * z

    # what is handed to the repository
    def f(self, x, t=None, u=None):
        A, b = self._ft(t, u)
        x = anp.atleast_2d(x) if self.s["style"] == "row" else x
        y = anp.dot(x, A.T) + b
        if self.s["fk"] != "none":
            y = y + self.s["fa"] * self._nl(self.s["fk"], anp.dot(x - self.o, self.B.T), anp)
        return y

    def h(self, x, t=None, u=None):
        H, c = self._ht(t, u)
        x = anp.atleast_2d(x) if self.s["style"] == "row" else x
        y = anp.dot(x, H.T) + c
        if self.s["hk"] != "none":
            y = y + self.s["ha"] * self._nl(self.s["hk"], anp.dot(x - self.o, self.G.T), anp)
        return y

    # what the oracles use
    def rf(self, t, u=None):
        def g(x):
            A, b = self._ft(t, u)
            y = A @ x + b
            if self.s["fk"] != "none":
                y = y + self.s["fa"] * self._nl(self.s["fk"], self.B @ (x - self.o), np)
            return y

        def dg(x):
            A, _ = self._ft(t, u)
            if self.s["fk"] != "none":
                z = self.B @ (x - self.o)
                return A + self.s["fa"] * self._dnl(self.s["fk"], z)[:, None] * self.B
            return A
        return g, dg

    def rh(self, t=None, u=None):
        def g(x):
            H, c = self._ht(t, u)
            y = H @ x + c
            if self.s["hk"] != "none":
                y = y + self.s["ha"] * self._nl(self.s["hk"], self.G @ (x - self.o), np)
            return y

        def dg(x):
            H, _ = self._ht(t, u)
            if self.s["hk"] != "none":
                z = self.G @ (x - self.o)
                return H + self.s["ha"] * self._dnl(self.s["hk"], z)[:, None] * self.G
            return H
        return g, dg

    def third_derivative(self, which):
        """A bound on every third derivative of the motion or of the measurement along one coordinate."""
        kind, B, a = (self.s["fk"], self.B, self.s.get("fa")) if which == "f" else (self.s["hk"], self.G, self.s.get("ha"))
        if kind in ("none", "sq"):
            return 0.0
        bound = {"sin": 1.0, "tanh": 2.0, "rat": 6.0}[kind]
        return bound * a * np.abs(B).max() ** 3

    def system(self):
        from Systems import DynamicSystemModel, GaussianNoise
        from StateModel import Gaussian
        return DynamicSystemModel(system_dim=self.d, measurement_dim=self.m, transition=self.f, measurement=self.h,
                                  system_noise=GaussianNoise(dimension=self.d, cov=self.Q.copy()),
                                  measurement_noise=GaussianNoise(dimension=self.m, cov=self.R.copy()),
                                  init_distribution=Gaussian(self.m0.copy(), self.P0.copy()), dt=self.dt)


def make_transform(t, dim):
    from MomentMatching import TaylorTransform, UnscentedTransform, MonteCarloTransform
    if t["kind"] == "TT":
        return TaylorTransform(dim=dim)
    if t["kind"] == "UT":
        return UnscentedTransform(dim=dim, alpha=t["alpha"], beta=t["beta"], kappa=t["kappa"])
    return MonteCarloTransform(dim=dim, number_of_samples=t["samples"])


def meas_list(ys, style="vec"):
    """Measurements as simulate() returns them: vectors, or one-row matrices."""
    out = []
    for y in ys:
        y = arr(y)
        out.append(y[None, :] if style == "row" else y)
    return out


# ---------------------------------------------------------------- reference moment matching
def ref_taylor(g, dg, m, P):
    J = dg(m)
    return g(m), J @ P @ J.T, P @ J.T


def ref_unscented(g, m, P, alpha, beta, kappa):
    n = len(m)
    lam = alpha ** 2 * (n + kappa) - n
    L = np.linalg.cholesky(sym(P))
    s = np.sqrt(n + lam)
    pts = [m] + [m + s * L[:, i] for i in range(n)] + [m - s * L[:, i] for i in range(n)]
    wm = [lam / (n + lam)] + [1 / (2 * (n + lam))] * (2 * n)
    wc = [wm[0] + 1 - alpha ** 2 + beta] + wm[1:]
    ys = [g(p) for p in pts]
    mu = sum(w * y for w, y in zip(wm, ys))
    S = sum(w * np.outer(y - mu, y - mu) for w, y in zip(wc, ys))
    C = sum(w * np.outer(p - m, y - mu) for w, p, y in zip(wc, pts, ys))
    return mu, S, C


def ref_transform(t, g, dg, m, P):
    if t["kind"] == "TT":
        return ref_taylor(g, dg, m, P)
    return ref_unscented(g, m, P, t["alpha"], t["beta"], t["kappa"])


def ref_predict(t, fd, m, P, Q):
    mu, S, C = ref_transform(t, fd[0], fd[1], m, P)
    return mu, S + Q, C


def ref_correct(t, hd, m, P, y, R):
    z, S, C = ref_transform(t, hd[0], hd[1], m, P)
    S = S + R
    K = C @ np.linalg.inv(S)
    return m + K @ (y - z), sym(P - K @ S @ K.T)


def ref_smooth(m, P, mp, Pp, C, mn, Pn):
    J = C @ np.linalg.inv(Pp)
    return m + J @ (mn - mp), sym(P + J @ (Pn - Pp) @ J.T)


def ref_filter_smoother(mod, tt, mt, ys, m0, P0, t_zero=0.0, u=None, cond_max=1e8, vague=0.0):
    """Extended or unscented Kalman filter and Rauch-Tung-Striebel smoother. None when ill conditioned.

    `vague` multiplies every prediction by a zero-mean Gaussian of that precision, as EP's initial beliefs do.
    """
    filt, preds = [], []
    m, P = m0, P0
    for k, y in enumerate(ys):
        t = t_zero + k * mod.dt
        if cond(P) > cond_max:
            return None
        mp, Pp, C = ref_predict(tt, mod.rf(t, u), m, P, mod.Q)
        preds.append((mp, Pp, C))
        if cond(Pp) > cond_max:
            return None
        if vague:
            L, s = to_natural(mp, Pp)
            mp, Pp = to_moment(L + vague * np.eye(len(mp)), s)
        m, P = ref_correct(mt, mod.rh(t, u), mp, Pp, y, mod.R)
        if cond(P) > cond_max or not np.all(np.isfinite(m)):
            return None
        filt.append((m, P))
    sm = [filt[-1]]
    one = np.eye(len(filt[-1][0]))[None]
    amp = one
    for k in range(len(ys) - 2, -1, -1):
        mp, Pp, C = preds[k + 1]
        amp = C @ np.linalg.inv(Pp) @ amp  # rounding errors grow by this factor on the way back
        if np.abs(amp).max() > 1e4:
            return None
        amp = np.concatenate([amp, one])
        s = ref_smooth(filt[k][0], filt[k][1], mp, Pp, C, *sm[0])
        if cond(s[1]) > cond_max:
            return None
        sm.insert(0, s)
    return filt, sm, preds


def _sensitivity(mod, tt, mt, ys, m0, P0, t_zero, u, ref, cov=False):
    """How far the reference moves when its inputs move by about 1e-10: the floor of any comparison with it."""
    out = only = 0.0
    rs = np.random.RandomState(0)
    for k in range(4):
        if k == 0:
            per = ref_filter_smoother(mod, tt, mt, [y + 1e-10 * (1 + np.abs(y)) for y in ys], m0, P0 * (1 + 1e-10), t_zero, u,
                                      cond_max=np.inf, vague=1e-10)
        else:  # rounding errors of another path through the same computation
            e = 1e-13 * rs.randn(3)
            per = ref_filter_smoother(mod, tt, mt, [y * (1 + 1e-13 * rs.randn(*y.shape)) for y in ys], m0 * (1 + e[0]), P0 * (1 + e[1]), t_zero, u,
                                      cond_max=np.inf)
        if per is None:
            return (np.inf, np.inf) if cov else np.inf
        for a, b in zip(ref[0] + ref[1], per[0] + per[1]):
            out = max(out, np.abs(a[0] - b[0]).max(), np.abs(a[1] - b[1]).max())
            only = max(only, np.abs(a[1] - b[1]).max())
    if cov:
        return (out, only) if np.isfinite(out) else (np.inf, np.inf)
    return out if np.isfinite(out) else np.inf


def sensitivity(*args, **kwargs):
    try:
        return _sensitivity(*args, **kwargs)
    except np.linalg.LinAlgError:  # the perturbed problem has no solution
        return (np.inf, np.inf) if kwargs.get("cov") else np.inf


def ref_linear_posterior(mod, ys, m0, P0, t_zero=0.0, u=None, upto=None):
    """Exact posterior of a linear-Gaussian model by conditioning the joint Gaussian of all the states.

    The measurement at step k and the move into step k both happen at time t_zero + k dt.
    """
    N, d = len(ys), mod.d
    mean, blocks = [], []
    F = []
    mu, P = m0, P0
    for k in range(N):
        A, b = mod._ft(t_zero + k * mod.dt, u)
        F.append(A)
        mu = A @ mu + b
        mean.append(mu)
    # covariance of x_k = sum of propagated sources
    S = np.zeros((N * d, N * d))
    src = [P0] + [mod.Q] * N
    prop = []  # prop[k][j]: x_k's dependence on source j (0 is the initial state, j+1 the noise of step j)
    prev = [np.eye(d)]
    for k in range(N):
        cur = [F[k] @ p for p in prev] + [np.eye(d)]
        prop.append(cur)
        prev = cur
    for i in range(N):
        for j in range(i + 1):
            B = sum(prop[i][q] @ src[q] @ prop[j][q].T for q in range(j + 2))
            S[i * d:(i + 1) * d, j * d:(j + 1) * d] = B
            S[j * d:(j + 1) * d, i * d:(i + 1) * d] = B.T
    n = N if upto is None else upto
    m = mod.m
    Hs = np.zeros((n * m, N * d))
    r = np.zeros(n * m)
    Rb = np.zeros((n * m, n * m))
    for k in range(n):
        H, c = mod._ht(t_zero + k * mod.dt, u)
        Hs[k * m:(k + 1) * m, k * d:(k + 1) * d] = H
        r[k * m:(k + 1) * m] = arr(ys[k]) - H @ mean[k] - c
        Rb[k * m:(k + 1) * m, k * m:(k + 1) * m] = mod.R
    mu = np.concatenate(mean)
    V = Hs @ S @ Hs.T + Rb
    G = np.linalg.solve(V, Hs @ S).T
    mu = mu + G @ r
    S = sym(S - G @ Hs @ S)
    return [(mu[k * d:(k + 1) * d], S[k * d:(k + 1) * d, k * d:(k + 1) * d]) for k in range(N)]


# ---------------------------------------------------------------- expectation propagation
def build_graph(mod, system, tt, mt, ys, power=1, damping=1, fargs=None, style="vec"):
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from MomentMatching.Estimator import Estimator
    est = Estimator(trans_map=tt, meas_map=mt, trans_noise=system.transition_noise.cov,
                    meas_noise=system.measurement_noise.cov, power=power, damping=damping)
    nodes = build_nodes(N=len(ys), dim=mod.d)
    nodes = node_estimator(nodes=nodes, estimator=est)
    return node_system(nodes=nodes, system_model=system, measurements=meas_list(ys, style), farg_list=fargs)


def nat(g):
    return np.array(g.precision, float), np.array(g.shift, float).ravel()


FACTORS = ("forward_factor", "measurement_factor", "back_factor")


def node_snapshot(node):
    out = {"marginal": nat(node.marginal)}
    for k in FACTORS:
        out[k] = nat(getattr(node, k))
    return out


def same_snapshot(a, b):
    return all(np.array_equal(a[k][0], b[k][0]) and np.array_equal(a[k][1], b[k][1]) for k in a)


def to_moment(L, s):
    P = np.linalg.inv(L)
    return P @ s, sym(P)


def to_natural(m, P):
    L = sym(np.linalg.inv(P))
    return L, L @ m


class NotComparable(Exception):
    """The reference itself is not well defined here (a cavity or a covariance is not safely positive definite)."""


def belief(m, P, natural):
    """A belief and its moments; those of a belief in natural parameters contain the rounding of the inversion."""
    from StateModel import Gaussian
    if not natural:
        return Gaussian(m.copy(), P.copy()), m, P
    L, s = to_natural(m, P)
    twin = Gaussian.from_natural(L.copy(), s.copy())
    m2, P2 = np.array(twin.mean, float), np.array(twin.cov, float)
    close("mean of a belief given by natural parameters", m2, m, 0, 1e-13 * cond(P) * (1 + np.abs(m).max()) + 1e-9)
    close("covariance of a belief given by natural parameters", P2, P, 1e-13 * cond(P) + 1e-9)
    return Gaussian.from_natural(L, s), m2, P2


def _mom(L, s, what):
    if not np.all(np.isfinite(L)) or min_eig(L) < 1e-7 or cond(L) > 1e8:
        raise NotComparable(what)
    return to_moment(L, s)


def _ok(P, what):
    if not np.all(np.isfinite(P)) or min_eig(P) < 1e-8 or cond(P) > 1e8:
        raise NotComparable(what)


def ref_ep_update(op, i, snaps, mod, tt, mt, ys, alpha, gamma, times, u, prior, rs=None):
    """Expected natural parameters (marginal, changed factor) after one power-EP update, from the state before it.

    Each stored factor is q_i ** alpha. Cavities remove that alpha-fraction; the neighbour's message removes the
    whole factor. Projection is done with noise covariances divided by alpha. With `rs`, every matrix that is
    inverted along the way moves by its rounding error.
    """
    def near(V):
        if rs is None:
            return V
        s = np.sqrt(np.abs(np.diag(V)))
        return V + 4e-16 * np.outer(s, s) * sym(rs.choice([-1.0, 1.0], size=V.shape))

    S = snaps[i]
    q = S["marginal"]
    if op == "fwd":
        if i == 0:
            cm, cP = prior
        else:
            p = snaps[i - 1]
            cm, cP = _mom(p["marginal"][0] - p["back_factor"][0] / alpha,
                          p["marginal"][1] - p["back_factor"][1] / alpha, "previous cavity")
        mu, C, _ = ref_transform(tt, *mod.rf(times[i], u), cm, cP)
        C = sym(C + mod.Q)
        _ok(C, "prediction")
        Ls, ss = to_natural(mu, near(C / alpha))
        old = S["forward_factor"]
        new = ((1 - gamma) * old[0] + gamma * Ls, (1 - gamma) * old[1] + gamma * ss)
        marg = (q[0] + (new[0] - old[0]) / alpha, q[1] + (new[1] - old[1]) / alpha)
        _mom(marg[0], marg[1], "new marginal")
        return marg, "forward_factor", new
    if op == "meas":
        old = S["measurement_factor"]
        cm, cP = _mom(q[0] - old[0], q[1] - old[1], "measurement cavity")
        z, V, C = ref_transform(mt, *mod.rh(None, None), cm, cP)
        V = near(sym(V + mod.R / alpha))
        _ok(V, "innovation")
        K = C @ np.linalg.inv(V)
        pm, pP = cm + K @ (ys[i] - z), sym(cP - K @ V @ K.T)
        key = "measurement_factor"
    else:
        if i == len(snaps) - 1:
            return None
        old = S["back_factor"]
        cm, cP = _mom(q[0] - old[0], q[1] - old[1], "backward cavity")
        n = snaps[i + 1]
        mu, V, C = ref_transform(tt, *mod.rf(times[i + 1], u), cm, cP)
        V = near(sym(V + mod.Q / alpha))
        _ok(V, "prediction")
        Lv, sv = to_natural(mu, V)
        tm, tP = _mom(Lv + alpha * n["marginal"][0] - n["forward_factor"][0],
                      sv + alpha * n["marginal"][1] - n["forward_factor"][1], "tilted next state")
        J = C @ np.linalg.inv(V)
        pm, pP = cm + J @ (tm - mu), sym(cP + J @ (tP - V) @ J.T)
        key = "back_factor"
    pP = pP if rs is None else pP + near(cP) - cP
    _ok(pP, "projection")
    Lp, sp_ = to_natural(pm, near(pP))
    r = (Lp - q[0], sp_ - q[1])
    new = (old[0] + gamma * r[0], old[1] + gamma * r[1])
    marg = (q[0] + gamma / alpha * r[0], q[1] + gamma / alpha * r[1])
    _mom(marg[0], marg[1], "new marginal")
    return marg, key, new


def ep_sensitivity(want, op, i, snaps, *rest):
    """How far the expected result moves when the state before moves by its rounding error.

    A factor is stored as a Gaussian; reading its natural parameters back costs about machine precision times its
    condition number, and a cavity that is nearly vague after a subtraction amplifies that.
    """
    out = 0.0
    for trial in (0, 1):
        rs = np.random.RandomState(trial)
        moved = []
        for s in snaps:
            t = {}
            for k in sorted(s):
                L, v = s[k]
                w = np.abs(np.linalg.eigvalsh(sym(L)))
                r = 1e-15 * min(1e8, w.max() / max(w.min(), 1e-300))
                E = rs.choice([-1.0, 1.0], size=L.shape)
                t[k] = (L + r * np.abs(L).max() * sym(E), v + r * np.abs(v).max() * rs.choice([-1.0, 1.0], size=v.shape))
            moved.append(t)
        other = ref_ep_update(op, i, moved, *rest, rs=rs)
        for a, b in ((want[0], other[0]), (want[2], other[2])):
            out = max([out] + [np.abs(a[q] - b[q]).max() for q in (0, 1)])
    return out


def run_op(node, op):
    {"fwd": node.fwd_update, "meas": node.meas_update, "back": node.back_update}[op]()
