"""A factor graph means the same however it was put together."""
from side import G, W, np, st, composite

N = {"quick": 170, "thorough": 5000}
RULE = ("Graphs of 1-8 steps assembled in one call or in pieces in any order, with measurements in any container, explicit or "
        "default times and inputs, and re-equipped with another estimator, model or data between sweeps; the chain structure "
        "is inspected and the results compared with a graph built in the plain way, and the recorded times and inputs with "
        "the documented ones. Non-trivial: an assembly other than the plain one or a graph re-equipped after a sweep.")


@composite
def case(draw, tier):
    n = draw(st.integers(1, 8))
    spec = draw(G.model(dmax=3, h_time=False))
    power, damping = draw(G.powers()), draw(G.dampings())
    same = draw(st.booleans())
    return {"model": spec, "y": draw(G.measurements(n, spec["m"])), "y2": draw(G.measurements(n, spec["m"])), "t": draw(G.transform()),
            "t2": draw(G.transform()), "power": power, "damping": damping,
            "power2": power if same else draw(G.powers()), "damping2": damping if same else draw(G.dampings()), "how": draw(st.sampled_from(["one call", "estimator first", "system first", "both"])),
            "container": draw(st.sampled_from(["list", "tuple", "array", "rows", "ints", "floats and ints"])), "fargs": draw(st.booleans()), "bare": draw(st.booleans()),
            "times": draw(G.vec(n, -3, 8)), "inputs": draw(G.vec(n, -1, 1)), "change": draw(st.lists(st.sampled_from(["estimator", "data", "system", "none"]), max_size=2)),
            "other": {"m0": draw(G.vec(spec["d"], -3, 3)), "P0": draw(G.spd(spec["d"])), "b": draw(G.vec(spec["d"])), "c": draw(G.vec(spec["m"])),
                      "dt": draw(st.sampled_from([spec["dt"], 0.5, 1, 0.3]))},
            "sweeps": draw(st.sampled_from([1, 2, 1, 2, 4]))}


def strategy(tier):
    return case(tier)


def examples():
    out = []
    for k, (d, m, n) in enumerate(((1, 1, 70), (6, 2, 4))):
        spec, y = G.steady(d, m, n, 90 + k)
        p = {"low": [[0.0] * i for i in range(d)], "diag": [1.0] * d, "e": [0.0] * d}
        out.append({"model": spec, "y": y, "y2": [[-v for v in r] for r in y], "t": {"kind": "TT"}, "t2": {"kind": "TT"}, "power": 0.8, "damping": 1.0, "power2": 0.8,
                    "damping2": 1.0, "how": "both", "container": "list", "fargs": False, "bare": False, "times": [0.0] * n, "inputs": [0.0] * n,
                    "change": ["data"], "other": {"m0": [0.1] * d, "P0": p, "b": [0.2] * d, "c": [0.3] * m, "dt": 0.3}, "sweeps": 1})
    return out


def check(c, ctx):
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    from MomentMatching.Estimator import Estimator
    mod = W.Model(c["model"])
    n = len(c["y"])
    if c["container"] == "ints":  # whole numbers, some or all of them given as integers
        c = dict(c, y=np.round(c["y"]).tolist(), y2=np.round(c["y2"]).tolist())
    elif c["container"] == "floats and ints":
        c = dict(c, y=[np.round(y).tolist() if i % 2 == 0 else y for i, y in enumerate(c["y"])])
    system = mod.system()
    seen = []
    f = system.transition

    def transition(x, t=None, u=None):
        seen.append((t, u))
        return f(x, t=t, u=u)
    system.transition = transition

    def est(k):
        t = W.make_transform(c["t" + k], mod.d)
        return Estimator(trans_map=t, meas_map=t, trans_noise=mod.Q.copy(), meas_noise=mod.R.copy(), power=c["power" + k], damping=c["damping" + k])

    def pack(ys):
        yl = W.meas_list(ys)
        if "ints" in c["container"]:
            return [y.astype(int) if np.array_equal(y, np.round(y)) and i != 1 else y for i, y in enumerate(yl)]
        return {"list": yl, "tuple": tuple(yl), "array": np.array(yl), "rows": W.meas_list(ys, "row")}[c["container"]]

    given = [{"t": t, "u": u} for t, u in zip(c["times"], c["inputs"])]
    if c["bare"]:  # times alone
        given = [{"t": a["t"]} for a in given]
    fargs = [dict(a) for a in given] if c["fargs"] else None
    kw = {"farg_list": fargs} if fargs is not None else {}
    how = c["how"]
    if how == "one call" and not c["fargs"]:
        nodes = build_nodes(n, mod.d, estimator=est(""), system=system, measurements=pack(c["y"]))
    elif how == "both" and not c["fargs"]:
        nodes = build_nodes(N=n, dim=mod.d, system=system, measurements=pack(c["y"]))
        nodes = node_estimator(nodes, est(""))
    elif how == "system first":
        nodes = node_system(build_nodes(n, mod.d), system, pack(c["y"]), **kw)
        nodes = node_estimator(nodes, est(""))
    else:
        nodes = build_nodes(N=n, dim=mod.d, estimator=est(""))
        nodes = node_system(nodes, system, pack(c["y"]), **kw)
    W.require(len(nodes) == n, "%d steps gave %d nodes", n, len(nodes))
    for i, x in enumerate(nodes):
        W.require(x.prev_node is (nodes[i - 1] if i else None) and x.next_node is (nodes[i + 1] if i < n - 1 else None),
                  "node %d of %d is linked to the wrong neighbours", i, n)
        W.require(x.index == i and x.dim == mod.d, "node %d has index %s and dimension %s", i, x.index, x.dim)
        s = W.node_snapshot(x)
        for k in W.FACTORS:
            W.require(not s[k][0].any() and not s[k][1].any() and s[k][0].shape == (mod.d, mod.d) and s[k][1].shape == (mod.d,),
                      "%s of a fresh node is not empty", k)
        W.require(np.abs(s["marginal"][0]).max() < 1e-8 and np.all(np.isfinite(x.marginal.mean)), "the belief of a fresh node is not vague")
    plain_sys = mod.system()
    plain_f = [{"t": i * mod.dt, "u": 0.0} for i in range(n)] if fargs is None else [dict(a) for a in fargs]
    plain = node_system(build_nodes(n, mod.d), plain_sys, W.meas_list(c["y"]), farg_list=plain_f)
    plain = node_estimator(plain, est(""))

    def sweep(what):
        for i in range(c["sweeps"]):
            seen[:] = []
            ep_fwd_back_updates(nodes)
            ep_fwd_back_updates(plain)
            order = [s for j, s in enumerate(seen) if j == 0 or s != seen[j - 1]]
            for t, u in order:
                W.require(any(abs(t - a["t"]) < 1e-9 and abs((u or 0.0) - a.get("u", 0.0)) < 1e-12 for a in plain_f), "the motion is evaluated at t=%s, u=%s", t, u)
            for j in range(n):
                a, b = nodes[j].marginal, plain[j].marginal
                if not (np.all(np.isfinite(b.mean)) and np.all(np.isfinite(b.cov))):
                    ctx.label("not finite")
                    return False
                W.close("%s: mean of node %d" % (what, j), np.asarray(a.mean, float), np.asarray(b.mean, float), 1e-9, 1e-10)
                W.close("%s: covariance of node %d" % (what, j), np.asarray(a.cov, float), np.asarray(b.cov, float), 1e-9, 1e-10)
            if fargs is not None:
                W.require(fargs == given, "the list of times and inputs was changed")
        return True

    if not sweep(how):
        return
    done = []
    for ch in c["change"]:
        if ch == "estimator":
            # the last estimator counts; the plain graph gets the same beliefs and only ever this estimator
            node_estimator(nodes, est("2"))
            fresh = node_system(build_nodes(n, mod.d), plain_sys, W.meas_list(c["y"]), farg_list=[dict(a) for a in plain_f])
            fresh = node_estimator(fresh, est("2"))
            for a, b in zip(fresh, plain):
                a.marginal, a.forward_factor, a.measurement_factor, a.back_factor = b.marginal, b.forward_factor, b.measurement_factor, b.back_factor
            plain = fresh
        elif ch == "system":
            mod2 = W.Model(dict(c["model"], **c["other"]))
            system = mod2.system()
            f = system.transition
            system.transition = transition  # which now records the calls of the new model
            node_system(nodes, system, pack(c["y"]), **kw)
            plain_sys = mod2.system()
            if fargs is None:
                plain_f = [{"t": i * mod2.dt, "u": 0.0} for i in range(n)]
            new = node_system(build_nodes(n, mod.d), plain_sys, W.meas_list(c["y"]), farg_list=[dict(a) for a in plain_f])
            for a, b in zip(node_estimator(new, est("2" if "estimator" in done else "")), plain):
                a.marginal, a.forward_factor, a.measurement_factor, a.back_factor = b.marginal, b.forward_factor, b.measurement_factor, b.back_factor
            plain = new
        elif ch == "data":
            node_system(nodes, system, pack(c["y2"]), **kw)
            node_system(plain, plain_sys, W.meas_list(c["y2"]), farg_list=[dict(a) for a in plain_f])
            c = dict(c, y=c["y2"])
        else:
            continue
        done.append(ch)
        if not sweep("after a change of " + ch):
            return
    ctx.label(how, c["container"], "explicit times" if c["fargs"] else "default times", *["change:" + x for x in c["change"]])
    ctx.nontrivial(how != "estimator first" or any(x != "none" for x in c["change"]) or c["container"] != "list")
