"""Filter and smoother are the extended/unscented Kalman recursions with the right times and inputs."""
from side import G, W, np, st, composite

N = {"quick": 240, "thorough": 6000}
RULE = ("Random nonlinear models whose motion and measurement depend on time and input, any start time, prior, step size, "
        "separate moment matching for motion and measurement, sliding reuse of one filter object; oracle: an independent "
        "EKF/UKF and Rauch-Tung-Striebel smoother, step by step and as whole runs. Non-trivial: a nonlinear model, at "
        "least 2 steps and a well-conditioned reference.")


@composite
def case(draw, tier):
    n = draw(G.length(6, 25))
    spec = draw(G.model(dmax=4 if tier == "quick" else 6, qrank=True, far=True, sharp=True))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"], spec)), "tt": draw(G.transform()),
            "mt": draw(st.one_of(st.none(), G.transform())), "t0": draw(st.sampled_from([0.0, 1.0, 3.5, -2.0])),
            "u": draw(st.one_of(st.none(), st.just(0.0), G.num(-1, 1))), "ystyle": draw(st.sampled_from(["vec", "row"])),
            "prior": draw(st.one_of(st.none(), st.fixed_dictionaries({"m": G.vec(spec["d"], -3, 3), "P": G.spd(spec["d"])}))),
            "next": {"m": draw(G.vec(spec["d"], -3, 3)), "P": draw(G.spd(spec["d"]))}, "cut": draw(st.integers(1, n)), "tiny": draw(st.sampled_from([None, None, None, 1e-2, 1e-3, 1e-4])), "container": draw(st.sampled_from(["list", "tuple", "array", "gen"]))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n, tt, mt) in enumerate(((1, 1, 120, "UT", "TT"), (2, 1, 60, "TT", "TT"), (8, 3, 4, "UT", "UT"), (2, 7, 3, "TT", "UT"))):
        spec, y = G.steady(d, m, n, 50 + k)
        ut = {"alpha": 1, "beta": 2, "kappa": 1}
        out.append({"model": spec, "y": y, "tt": dict(ut, kind=tt), "mt": dict(ut, kind=mt), "t0": 1.0, "u": 0.4, "prior": None,
                    "ystyle": spec["style"], "next": {"m": [0.5] * d, "P": spec["P0"]}, "cut": 2, "tiny": None, "container": "list"})
    return out


def check(c, ctx):
    from Filters.KalmanFilter import KalmanFilterSmoother
    from StateModel import Gaussian
    mod = W.Model(c["model"])
    if c.get("tiny"):  # noise far below the scale of the states
        mod.Q = mod.Q * c["tiny"]
        mod.P0 = mod.P0 * (c["tiny"] * 10)
        if c["tiny"] < 1e-2:
            mod.R = mod.R * c["tiny"]
        ctx.label("tiny noise")
    ys = [W.arr(y) for y in c["y"]]
    t0, u, n = c["t0"], c["u"], len(c["y"])
    m0, P0 = (mod.m0, mod.P0) if c["prior"] is None else (mod.o + W.arr(c["prior"]["m"]), W.spd(c["prior"]["P"]))
    mt = c["mt"] or c["tt"]
    ref = W.ref_filter_smoother(mod, c["tt"], mt, ys, m0, P0, t0, u, cond_max=1e6)
    if ref is None:
        ctx.label("ill conditioned")
        return
    sens, csens = W.sensitivity(mod, c["tt"], mt, ys, m0, P0, t0, u, ref, cov=True)
    csize = W.cov_size(ref[0], [p[:2] for p in ref[2]], [(0, P0)])
    big = max(max(np.abs(m - mod.o).max(), np.abs(P).max()) for m, P in ref[0] + ref[1] + [p[:2] for p in ref[2]])
    if sens > 1e-5 or csens > 1e-5 * csize or big > 1e3:
        ctx.label("too sensitive")
        return
    system = mod.system()
    given = []

    def heard(fn):
        def g(x, t=None, u=None):
            given.append((t, u))
            return fn(x, t=t, u=u)
        return g
    system.transition, system.measurement = heard(system.transition), heard(system.measurement)
    args = (W.make_transform(c["tt"], mod.d), system)
    kf = KalmanFilterSmoother(*args) if c["mt"] is None else \
        KalmanFilterSmoother(*args, meas_moment_matching=W.make_transform(c["mt"], mod.d))
    tol = dict(rtol=1e-7, atol=1e-8 + 50 * sens, catol=1e-8 * csize + 50 * csens)
    prior = {} if c["prior"] is None else {"prior_state": Gaussian(m0.copy(), P0.copy())}
    yl = W.meas_list(c["y"], c["ystyle"])
    yl = {"list": yl, "tuple": tuple(yl), "array": np.array(yl), "gen": (y for y in yl)}[c["container"]]
    filt = kf.kalman_filter(yl, t_zero=t0, u=u, **prior)
    smooth = kf.kalman_smoother(filt, u=u, t_zero=t0)
    W.require(len(filt) == n and len(smooth) == n, "%d measurements gave %d filtered and %d smoothed states", n, len(filt), len(smooth))
    for k in range(n):
        W.close_state("filtered state %d of %d" % (k, n), filt[k], *ref[0][k], **tol)
    for k in range(n):
        W.close_state("smoothed state %d of %d" % (k, n), smooth[k], *ref[1][k], **tol)
    if "sharp" in mod.s:
        ctx.label("sharp, " + mod.s["sharp"][0])
    if "qrank" in mod.s:
        ctx.label("noise of lower rank")
    # single steps
    k = c["cut"] - 1
    start = (m0, P0) if k == 0 else ref[0][k - 1]
    t = t0 + k * mod.dt
    p = kf.predict(Gaussian(start[0].copy(), start[1].copy()), t=t, u=u)
    W.close_state("one prediction", p, *ref[2][k][:2], **tol)
    q = kf.correct(Gaussian(ref[2][k][0].copy(), ref[2][k][1].copy()), ys[k], t=t, u=u)
    W.close_state("one correction", q, *ref[0][k], **tol)
    # one smoothing step towards any belief about the next state
    nm, nP = W.arr(c["next"]["m"]) + mod.o, W.spd(c["next"]["P"]) * mod.unit
    one = kf.smooth(Gaussian(start[0].copy(), start[1].copy()), Gaussian(nm.copy(), nP.copy()), t=t, u=u)
    J = ref[2][k][2] @ np.linalg.inv(ref[2][k][1])
    if W.cond(ref[2][k][1]) < 1e6 and np.abs(J).max() < 1e3:
        want = W.ref_smooth(*start, *ref[2][k], nm, nP)
        W.close_state("one smoothing step", one, *want, rtol=1e-6, atol=1e-6 + 1e3 * sens, catol=1e-6 * csize + 1e3 * csens)
    for t, v in given:
        W.require(v is None if u is None else v is not None and v == u, "the model was given the input %r instead of %r", v, u)
        W.require(t is not None and t0 - 1e-9 <= t <= t0 + (n - 1) * mod.dt + 1e-9, "the model was given the time %r", t)
    # a run can be resumed from any filtered state, with the same object
    if k:
        rest = kf.kalman_filter(W.meas_list(c["y"][k:], c["ystyle"]), prior_state=filt[k - 1], t_zero=t, u=u)
        W.require(len(rest) == n - k, "%d measurements gave %d states", n - k, len(rest))
        for i, g in enumerate(rest):
            W.close_state("resumed run, state %d" % (k + i), g, *ref[0][k + i], **tol)
        ctx.label("resumed")
    # a run without a prior of its own starts from the system's, whatever earlier runs were given
    if c["prior"] is not None:
        own = W.ref_filter_smoother(mod, c["tt"], mt, ys[:2], mod.m0, mod.P0, t0, u, cond_max=1e6)
        if own is not None and W.sensitivity(mod, c["tt"], mt, ys[:2], mod.m0, mod.P0, t0, u, own) < 1e-5:
            for i, g in enumerate(kf.kalman_filter(W.meas_list(c["y"][:2], c["ystyle"]), t_zero=t0, u=u)):
                W.close_state("a run from the system's prior after one from another, state %d" % i, g, *own[0][i], rtol=1e-6, atol=1e-6)
            ctx.label("prior given and then not")
    ctx.label(c["tt"]["kind"] + "/" + mt["kind"], "t0!=0" if t0 else "t0=0", "u" if u else "no u", c["container"])
    ctx.nontrivial(n >= 2 and (mod.s["fk"] != "none" or mod.s["hk"] != "none"))
