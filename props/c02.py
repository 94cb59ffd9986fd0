"""Filter and smoother are exact on linear-Gaussian models."""
from side import G, W, np, st, composite

N = {"quick": 220, "thorough": 6000}
RULE = ("Random linear-Gaussian models with time-varying and input-driven motion and measurement, arbitrary start time "
        "and prior, any moment matching that is exact on affine maps; oracle: conditioning of the joint Gaussian of the "
        "whole trajectory in one step. Non-trivial: at least 2 steps and a time- or input-dependent model or start.")


@composite
def case(draw, tier):
    n = draw(G.length(6, 30))
    spec = draw(G.model(dmax=4 if tier == "quick" else 7, linear=True, qrank=True, far=True, sharp="all"))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"], spec)), "tt": draw(G.transform(safe=False)),
            "mt": draw(st.one_of(st.none(), G.transform(safe=False))),
            "t0": draw(st.sampled_from([0.0, 0.0, 1.0, 3.5, -2.0])), "u": draw(st.sampled_from([None, 0.0, 1.0, -0.7])), "still": draw(st.integers(0, 11)) == 11,
            "prior": draw(st.one_of(st.none(), st.fixed_dictionaries({"m": G.vec(spec["d"]), "P": G.spd(spec["d"])}))),
            "ystyle": draw(st.sampled_from(["vec", "row"]))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n, tt, mt) in enumerate(((1, 1, 120, "UT", "TT"), (2, 1, 60, "TT", "TT"), (9, 3, 4, "UT", "UT"), (2, 8, 3, "TT", "UT"))):
        spec, y = G.steady(d, m, n, 10 + k, linear=True)
        ut = {"alpha": 1, "beta": 2, "kappa": 1}
        out.append({"model": spec, "y": y, "tt": dict(ut, kind=tt), "mt": dict(ut, kind=mt), "t0": 1.0, "u": 0.4, "still": False, "prior": None,
                    "ystyle": spec["style"]})
    return out


def check(c, ctx):
    from Filters.KalmanFilter import KalmanFilterSmoother
    from StateModel import Gaussian
    mod = W.Model(c["model"])
    if c["still"]:  # nothing ever moves and every measurement is the expected one
        mod.b, mod.c, mod.m0, mod.o = 0 * mod.b, 0 * mod.c, 0 * mod.m0, 0 * mod.o
        for k in ("ft", "fu", "ht", "hu", "o"):
            mod.s.pop(k, None)
        c["y"] = [[0.0] * mod.m for _ in c["y"]]
        c["prior"] = None
    ys = [W.arr(y) for y in c["y"]]
    t0, u = c["t0"], c["u"]
    m0, P0 = (mod.m0, mod.P0) if c["prior"] is None else (mod.o + W.arr(c["prior"]["m"]), W.spd(c["prior"]["P"]))
    n = len(ys)
    if "qrank" in mod.s:
        tt = {"kind": "TT"}
        if W.ref_filter_smoother(mod, tt, tt, ys, m0, P0, t0, u, cond_max=1e6) is None:
            ctx.label("singular or amplifying")
            return
        ctx.label("noise of lower rank")
    system = mod.system()
    tt = W.make_transform(c["tt"], mod.d)
    mt = None if c["mt"] is None else W.make_transform(c["mt"], mod.d)
    kf = KalmanFilterSmoother(tt, system, meas_moment_matching=mt) if mt is not None else KalmanFilterSmoother(tt, system)
    kw = {"t_zero": t0} if t0 else {}
    prior = {} if c["prior"] is None else {"prior_state": Gaussian(m0.copy(), P0.copy())}
    filt = kf.kalman_filter(W.meas_list(c["y"], c["ystyle"]), u=u, **kw, **prior)
    smooth = kf.kalman_smoother(filt, u=u, **kw)
    W.require(len(filt) == n and len(smooth) == n, "%d measurements gave %d filtered and %d smoothed states", n,
              len(filt), len(smooth))
    ctx.nontrivial(n >= 2 and (t0 != 0 or u or "ft" in mod.s or "ht" in mod.s or c["prior"] is not None))
    ctx.label("time-varying" if "ft" in mod.s or "ht" in mod.s else "constant", "t0!=0" if t0 else "t0=0",
              "own prior" if c["prior"] else "model prior", c["tt"]["kind"])
    full = W.ref_linear_posterior(mod, ys, m0, P0, t0, u)
    tol = dict(rtol=1e-6, atol=1e-7, catol=1e-7 * W.cov_size(full, [(0, P0)]))
    if "sharp" in mod.s:
        ctx.label("sharp, " + mod.s["sharp"][0])
    for k in range(n):
        W.close_state("smoothed state %d of %d" % (k, n), smooth[k], *full[k], **tol)
    for k in sorted({0, n // 2, n - 1}):
        ref = W.ref_linear_posterior(mod, ys, m0, P0, t0, u, upto=k + 1)[k]
        W.close_state("filtered state %d of %d" % (k, n), filt[k], *ref, **tol)
