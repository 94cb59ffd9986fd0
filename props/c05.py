"""A failed update changes nothing, and no update leaves an improper belief."""
from side import G, W, np, st, composite
from props.c04 import expand

N = {"quick": 500, "thorough": 8000}
RULE = ("Histories of updates on random nonlinear graphs in which some updates are made to fail inside the moment "
        "matching (numerical error, indefinite or non-finite covariance, exploding cross-covariance, an error of the "
        "user's own model); after each failure the whole graph is compared bit for bit with the graph before it, and "
        "at the end with a twin that never attempted the failed updates. Non-trivial: at least one injected failure "
        "that the engine had to reject, after at least one accepted update.")

class OwnError(Exception):
    pass


ERRORS = [ZeroDivisionError, ValueError, TypeError, KeyError, IndexError, AttributeError, AssertionError, RuntimeError, ArithmeticError,
          FloatingPointError, OwnError]
KINDS = ["linalg", "linalg", "negcov", "nancov", "cross", "model"]


@composite
def case(draw, tier):
    n = draw(st.integers(1, 4))
    hostile = draw(st.integers(0, 2)) == 2  # messages far from any density, no injected faults
    spec = draw(G.model(dmax=3, h_time=False, d=draw(st.integers(2, 3)) if hostile else None, sharp=hostile))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["fwd", "meas", "back"]), st.integers(0, n - 1)),
        st.tuples(st.sampled_from(["sweep", "filter", "nodewise"]), st.just(0))), min_size=1, max_size=8))
    m = len(expand(ops, n))
    start = draw(st.one_of(*[st.just([])] * (not hostile), st.lists(st.tuples(st.integers(0, n - 1), G.vec(spec["d"]), G.spd(spec["d"]), G.mat(spec["d"], spec["d"]),
                                                           G.mat(spec["d"], spec["d"]), G.num(0.1, 8), st.sampled_from(["sym", "rank one", "rank one", "minus rank one", "minus small rank one"])), min_size=int(hostile), max_size=3)))
    faults = draw(st.lists(st.tuples(st.integers(0, max(0, m - 1)), st.sampled_from(KINDS)), min_size=0, max_size=0 if hostile else 4))
    return {"model": spec, "y": draw(G.measurements(n, spec["m"])), "tt": draw(G.transform(safe=False)),
            "mt": draw(G.transform(safe=False)), "power": draw(G.powers()), "damping": draw(G.dampings()),
            "start": [list(s) for s in start], "ops": [list(o) for o in ops], "faults": [list(f) for f in faults],
            "error": draw(st.integers(0, len(ERRORS) - 1))}


def strategy(tier):
    return case(tier)


def make_faulty(inner, error):
    from MomentMatching import MappingTransform

    class Faulty(MappingTransform):
        def __init__(self):
            super().__init__(approximation_method="faulty")
            self.kind = None
            self.fired = self.calls = 0

        def _transform(self, func, state):
            k = self.kind
            if k == "linalg":
                self.fired += 1
                raise np.linalg.LinAlgError("injected")
            if k == "model":
                def func(*args, **kwargs):
                    self.fired += 1
                    raise error("injected")
            mean, cov, cross = inner(func, state)
            self.calls += 1
            if k == "negcov":
                self.fired += 1
                cov = -1e9 * np.eye(cov.shape[0])
            elif k == "nancov":
                self.fired += 1
                cov = cov * np.nan
            elif k == "cross":
                self.fired += 1
                cross = 1e6 * (np.abs(cross) + 1)
            self.last = (np.array(cov, float), np.array(cross, float))
            return mean, cov, cross
    return Faulty()


def improper_projection(op, t, before, i, mod, power):
    """True when the moments the matching reported give a projected belief that is clearly no density."""
    if t.calls != 1 or op == "fwd" or not all(np.all(np.isfinite(x)) for x in t.last):
        return False
    cov, cross = t.last
    L = before[i]["marginal"][0] - before[i]["measurement_factor" if op == "meas" else "back_factor"][0]
    if np.trace(L) < 1e-6 or W.cond(L) > 1e8:
        return False
    P = np.linalg.inv(L)
    z = W.sym(cov) + (mod.R if op == "meas" else mod.Q) / power
    if W.cond(z) > 1e8 or W.min_eig(z) <= 0:
        return False
    J = np.linalg.solve(z, cross.T).T
    if op == "meas":
        new = P - J @ cross.T
        size = np.abs(P).max() + np.abs(J @ cross.T).max()
    else:
        nxt = before[i + 1]
        M = np.linalg.inv(z) + power * nxt["marginal"][0] - nxt["forward_factor"][0]
        if np.trace(M) < 1e-6 or W.cond(M) > 1e8:
            return False
        S = np.linalg.inv(M)
        new = P + J @ (S - z) @ J.T
        size = np.abs(P).max() + np.abs(J @ S @ J.T).max() + np.abs(J @ z @ J.T).max()
    return W.min_eig(W.sym(new)) < -1e-5 * size


def check(c, ctx):
    from StateModel import Gaussian
    from scipy.linalg import LinAlgWarning
    mod = W.Model(c["model"])
    n = len(c["y"])
    error = ERRORS[c.get("error", 0)]

    def graph():
        tt, mt = (make_faulty(W.make_transform(c[k], mod.d), error) for k in ("tt", "mt"))
        nodes = W.build_graph(mod, mod.system(), tt, mt, c["y"], c["power"], c["damping"])
        # some beliefs start proper, as the product of messages that are not all proper
        for i, m, P, X, Y, scale, kind in c["start"]:
            L, s = W.to_natural(W.arr(m), W.spd(P))
            F, B = (W.sym(W.arr(a)) * scale if kind == "sym" else np.outer(a[0], a[0]) * scale * {"rank one": 20, "minus rank one": -20}.get(kind, -1) for a in (X, Y))
            z = np.zeros(mod.d)
            node = nodes[i]
            node.marginal = Gaussian.from_natural(L, s)
            node.forward_factor, node.back_factor = Gaussian.from_natural(F, z), Gaussian.from_natural(B, z)
            node.measurement_factor = Gaussian.from_natural(c["power"] * L - F - B, c["power"] * s)
        return nodes, tt, mt

    nodes, tt, mt = graph()
    faults = {i: k for i, k in c["faults"]}
    rejected, accepted = 0, 0
    skipped = set()
    comparable = True
    for step, (op, i) in enumerate(expand(c["ops"], n)):
        kind = faults.get(step)
        before = [W.node_snapshot(x) for x in nodes]
        tt.kind = mt.kind = kind
        tt.calls = mt.calls = 0
        fired = tt.fired + mt.fired
        raised = None
        try:
            W.run_op(nodes[i], op)
        except Exception as e:
            raised = e
        tt.kind = mt.kind = None
        fired = tt.fired + mt.fired > fired
        after = [W.node_snapshot(x) for x in nodes]
        improper = False
        if op == "meas":  # a measurement cavity that is clearly no density
            L = before[i]["marginal"][0] - before[i]["measurement_factor"][0]
            improper = np.trace(L) > 1e-6 and W.min_eig(L) < -1e-6 * np.abs(L).max()
        same = all(W.same_snapshot(a, b) for a, b in zip(after, before))
        bad_projection = False
        try:
            bad_projection = improper_projection(op, mt if op == "meas" else tt, before, i, mod, c["power"])
        except np.linalg.LinAlgError:
            pass
        where = "step %d (%s update of node %d, injected %s)" % (step, op, i, kind)
        if fired:
            ctx.label(kind + ":" + op)
            if kind == "model":
                W.require(isinstance(raised, error), "%s: the model's own %s was hidden", where, error.__name__)
            elif kind == "linalg":
                W.require(raised is None, "%s: the numerical failure was not absorbed: %r", where, raised)
            if kind in ("model", "linalg") or (kind in ("negcov", "nancov") and op != "back") or raised is not None:
                W.require(same, "%s: the failed update changed the graph", where)
                rejected += 1
                skipped.add(step)
                if accepted:
                    ctx.nontrivial()
            elif bad_projection:
                W.require(same, "%s: accepted although the projected belief is improper", where)
                rejected += 1
                skipped.add(step)
            elif same:
                rejected += 1
                skipped.add(step)
            elif kind in ("nancov",):
                W.require(False, "%s: a non-finite covariance was accepted", where)
        elif isinstance(raised, (np.linalg.LinAlgError, LinAlgWarning)):
            # a solve too ill-conditioned to trust; whatever is reported, nothing may have changed
            W.require(same, "%s: the update failed with %r and changed the graph", where, raised)
            skipped.add(step)
            ctx.label("ill-conditioned")
        elif raised is not None:
            raise raised
        else:
            if bad_projection:
                ctx.label("improper projection: " + op)
                W.require(same, "%s: accepted although the projected belief is improper", where)
            if improper:
                ctx.label("improper cavity")
                W.require(same, "%s: accepted although the measurement cavity is improper", where)
            b, a = before[i], after[i]
            if all(np.array_equal(b["marginal"][q], a["marginal"][q]) for q in (0, 1)):
                ctx.label("no effect")
                scale = np.abs(b["marginal"][0]).max() + np.abs(b["marginal"][1]).max()
                for k in W.FACTORS:
                    for q in (0, 1):
                        W.require(np.abs(b[k][q] - a[k][q]).max() <= 1e-9 * scale, "%s: left the belief as it was but changed the %s by %.3g",
                                  where, k, np.abs(b[k][q] - a[k][q]).max())
                if c["start"] and accepted:
                    ctx.nontrivial()
        for j, node in enumerate(nodes):
            m, P = np.asarray(node.marginal.mean, float), np.asarray(node.marginal.cov, float)
            W.require(m.shape == (mod.d,) and P.shape == (mod.d, mod.d), "%s: node %d has mean %s and covariance %s", where,
                      j, m.shape, P.shape)
            W.require(np.all(np.isfinite(P)), "%s: node %d has a non-finite covariance", where, j)
            W.require(np.abs(P - P.T).max() <= 1e-12 * np.abs(P).max(), "%s: node %d has an asymmetric covariance", where, j)
            W.require(W.min_eig(P) > -1e-12 * np.abs(P).max(), "%s: node %d has an indefinite covariance %s", where, j, W.short(P))
            if W.min_eig(node.marginal.precision) < -1e-9:
                ctx.label("negative precision")
        if not same:
            accepted += 1
    ctx.label("some rejected" if rejected else "none rejected")
    # a twin graph that never attempted the rejected updates ends in the same state
    twin, tt2, mt2 = graph()
    for step, (op, i) in enumerate(expand(c["ops"], n)):
        if step in skipped:
            continue
        tt2.kind = mt2.kind = faults.get(step)
        W.run_op(twin[i], op)
        tt2.kind = mt2.kind = None
    for j in range(n):
        a, b = W.node_snapshot(nodes[j]), W.node_snapshot(twin[j])
        if not W.same_snapshot(a, b):
            for k in a:
                for part in (0, 1):
                    W.close("node %d, %s: difference from a run that never attempted the rejected updates" % (j, k),
                            a[k][part], b[k][part], 1e-7, 1e-9)
