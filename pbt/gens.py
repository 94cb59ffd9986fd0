"""Hypothesis strategies shared by the properties (imported by the driver only, never by the worker)."""
from hypothesis import strategies as st


def num(lo, hi, q=100):
    """Floats on a 1/q grid: they shrink to short decimals and never underflow."""
    return st.integers(int(round(lo * q)), int(round(hi * q))).map(lambda k: k / q)


def vec(n, lo=-2.0, hi=2.0, q=100):
    return st.lists(num(lo, hi, q), min_size=n, max_size=n)


def mat(r, c, lo=-1.5, hi=1.5, q=100):
    return st.lists(vec(c, lo, hi, q), min_size=r, max_size=r)


@st.composite
def spd(draw, n, emin=-1, emax=1):
    """A positive definite matrix as D U D^T form: unit lower triangle, positive diagonal, decimal scales."""
    low = [draw(vec(i, -1.0, 1.0)) for i in range(n)]
    diag = draw(vec(n, 0.3, 1.5))
    e = draw(st.lists(st.integers(emin * 2, emax * 2).map(lambda k: k / 2), min_size=n, max_size=n))
    return {"low": low, "diag": diag, "e": e}


def dims(hi=4, top=None):
    """Dimensions up to hi, now and then up to top."""
    if top and top > hi:
        return st.one_of(*[st.integers(1, hi)] * 8, st.integers(hi + 1, top))
    return st.integers(1, hi)


@st.composite
def model(draw, dmax=4, mmax=3, linear=False, h_time=True, time=True, control=True, style=None, emin=-1, emax=1,
          meas_noise=(-1, 1), sys_noise=(-1, 1), init=(-1, 1), dt=True, d=None, dtop=6, mtop=5, qrank=False, far=False, sharp=False):
    """A state-space model: x' = A x + s(B x) + b + time and control terms, y = H x + q(G x) + c + ..."""
    d = draw(dims(dmax, dtop)) if d is None else d
    m = draw(dims(mmax, mtop))
    spec = {
        "d": d, "m": m,
        "A": draw(mat(d, d, -1.2, 1.2)), "b": draw(vec(d)),
        "H": draw(mat(m, d, -1.5, 1.5)), "c": draw(vec(m)),
        "fk": "none" if linear else draw(st.sampled_from(["sin", "tanh", "none", "rat"])),
        "hk": "none" if linear else draw(st.sampled_from(["sin", "sq", "tanh", "none"])),
        "Q": draw(spd(d, *sys_noise)), "R": draw(spd(m, *meas_noise)),
        "m0": draw(vec(d, -3, 3)), "P0": draw(spd(d, *init)),
        "dt": draw(st.sampled_from([1, 1, 0.5, 0.1, 2.0, 0.25, 1e-4])) if dt else 1,
        "style": style or draw(st.sampled_from(["vec", "row"])),
    }
    if spec["fk"] != "none":
        spec["B"] = draw(mat(d, d, -1.0, 1.0))
        spec["fa"] = draw(num(0.1, 1.5))
    if spec["hk"] != "none":
        spec["G"] = draw(mat(m, d, -1.0, 1.0))
        spec["ha"] = draw(num(0.1, 1.0))
    if time and draw(st.booleans()):
        spec["ft"] = draw(vec(d))
        spec["fw"] = draw(num(0.2, 1.5))
        spec["At"] = draw(num(0, 0.5))
    if control and draw(st.booleans()):
        spec["fu"] = draw(vec(d))
    if h_time:
        if time and draw(st.booleans()):
            spec["ht"] = draw(vec(m))
            spec["Ht"] = draw(num(0, 0.5))
        if control and draw(st.booleans()):
            spec["hu"] = draw(vec(m))
    if far and draw(st.integers(0, 5)) == 5:  # everything happens far from the origin
        k = draw(st.sampled_from([60, 300, 1000]))
        spec["o"] = [k * x for x in draw(vec(d, -1.5, 1.5))]
    if far and draw(st.integers(0, 5)) == 5:  # readings far from zero
        k = draw(st.sampled_from([100, 3000]))
        spec["yo"] = [k * x for x in draw(vec(m, -1.5, 1.5))]
        spec["c"] = [x + y for x, y in zip(spec["c"], spec["yo"])]
    if sharp and draw(st.integers(0, 5)) == 5:  # all the standard deviations, or those of the sensor alone, are tiny
        spec["sharp"] = [draw(st.sampled_from(["all", "all", "R"] if sharp is True and m <= d else ["all"])), draw(st.sampled_from([2, 3, 4]))]
    if qrank and draw(st.integers(0, 5)) == 5:  # noise that drives only some directions of the state, or none
        spec["qrank"] = draw(st.integers(0, d - 1))
    return spec


@st.composite
def ut_params(draw, safe=True):
    """Parameters of the unscented transform; safe ones keep every covariance weight positive."""
    if safe:
        return {"alpha": draw(st.sampled_from([1, 1, 1.0, 1.2, 0.9])), "beta": draw(st.sampled_from([2, 0, 1, 2.0, 0.5, 3])),
                "kappa": draw(st.sampled_from([1, 0.5, 2, 3, 1.5]))}
    return {"alpha": draw(st.sampled_from([1, 0.5, 0.3, 2.0, 1.3, 0.1, 0.01, 0.001])),
            "beta": draw(st.sampled_from([2, 0, 1, 3, -1])),
            "kappa": draw(st.sampled_from([0, 1, 2, 3, -0.5, 0.25]))}


@st.composite
def transform(draw, kinds=("TT", "UT"), safe=True):
    k = draw(st.sampled_from(list(kinds)))
    t = {"kind": k}
    if k == "UT":
        t.update(draw(ut_params(safe)))
    return t


def powers(include_one=True):
    base = [0.9, 0.8, 0.5, 0.3, 0.75, 0.6, 0.2, 0.1, 0.05, 0.99, 0.999]
    return st.one_of(st.sampled_from(([1, 1.0] if include_one else []) + base), num(0.04, 1, 50))


def strong_powers():
    """Powers of power EP on both sides of 1."""
    return st.one_of(*[powers()] * 6, num(1.02, 2, 50))


def dampings():
    return st.one_of(st.sampled_from([1, 1.0, 0.8, 0.5, 0.9, 0.3, 0.1, 0.65, 0.02]), num(0.02, 1, 50))


@st.composite
def measurements(draw, n, m, spec=None, lo=-4, hi=4):
    ys = draw(mat(n, m, lo, hi))
    if spec and "yo" in spec:
        ys = [[y + o for y, o in zip(row, spec["yo"])] for row in ys]
    return ys


@st.composite
def length(draw, hi=8, long=None):
    """Number of time steps: usually short, sometimes long."""
    if long and draw(st.integers(0, 9)) == 9:
        return draw(st.integers(hi + 1, long))
    return draw(st.integers(1, hi))


def steady(d, m, n, seed, linear=False, **over):
    """A fixed contracting model and measurements for n steps: for horizons and dimensions that random cases rarely reach."""
    import random
    r = random.Random(seed)

    def q(lo, hi):
        return round(r.uniform(lo, hi), 2)

    def vv(k, lo=-1.0, hi=1.0):
        return [q(lo, hi) for _ in range(k)]

    def cov(k):
        return {"low": [vv(i, -0.3, 0.3) for i in range(k)], "diag": vv(k, 0.6, 1.2), "e": [0.0] * k}

    spec = {"d": d, "m": m, "A": [[(q(0.4, 0.8) if i == j else q(-0.2, 0.2) / d) for j in range(d)] for i in range(d)], "b": vv(d),
            "H": [[(q(0.7, 1.3) if i % d == j else q(-0.3, 0.3)) for j in range(d)] for i in range(m)], "c": vv(m),
            "fk": "none" if linear else "sin", "hk": "none" if linear else "tanh", "Q": cov(d), "R": cov(m), "m0": vv(d), "P0": cov(d),
            "dt": 0.25, "style": r.choice(["vec", "row"]), "ft": vv(d), "fw": 0.7, "At": 0.1, "fu": vv(d)}
    if not linear:
        spec.update(B=[vv(d, -0.4, 0.4) for _ in range(d)], fa=0.5, G=[vv(d, -0.4, 0.4) for _ in range(m)], ha=0.4)
    spec.update(over)
    return spec, [vv(m, -2.0, 2.0) for _ in range(n)]
