"""The printed comparison summarises exactly the saved results of each setting."""
from side import G, W, np, st, composite

N = {"quick": 60, "thorough": 1500}
SHARDS = 4
RULE = ("Random result stores for every experiment: several seeds for each reported setting, and rows of other "
        "transforms, powers, dampings, quantities, dimensions and iterations in between; every printed mean and spread is "
        "compared with the statistics of exactly the matching rows, to the printed precision. Non-trivial: at least 2 seeds "
        "and at least 20 unrelated rows.")
MIN_NONTRIVIAL = 0.2
SEEDS = [101, 201, 301, 401, 501, 601, 701, 801, 901, 1001]


@composite
def case(draw, tier):
    return {"seeds": draw(st.integers(1, 5)), "other": draw(st.integers(0, 60)), "rng": draw(st.integers(0, 10 ** 6)),
            "scale": draw(st.sampled_from([1.0, 0.01, 30.0])), "order": draw(st.sampled_from(["first", "last", "mixed"])), "ties": draw(st.integers(0, 2)) == 2}


def strategy(tier):
    return case(tier)


def build(path, schema, table, rows, order, rng):
    import os
    import sqlite3
    if os.path.exists(path):
        os.unlink(path)
    con = sqlite3.connect(path)
    con.execute("CREATE TABLE %s (%s)" % (table, schema))
    rows = list(rows)
    if order == "mixed":
        rows = [rows[i] for i in rng.permutation(len(rows))]
    elif order == "last":
        rows = rows[::-1]
    con.executemany("INSERT INTO %s VALUES (%s)" % (table, ",".join("?" * len(rows[0]))), rows)
    con.commit()
    con.close()


def check(c, ctx):
    import contextlib
    import gc
    import io
    import os
    import re
    import runpy
    rng = np.random.RandomState(c["rng"])
    seeds = [11 * i + 1 for i in range(c["seeds"])]

    def value():
        if c["ties"] and rng.rand() < 0.7:  # different seeds with equal results
            return float(c["scale"] * (1 + rng.randint(3)))
        return float(np.round(c["scale"] * (0.1 + rng.gamma(2.0)), 6))

    want = []       # (what, mean, spread, decimals or None for scientific), in the order of the report

    def add(what, rows, fmt):
        want.append((what + " RMSE", np.mean([r[-2] for r in rows]), np.std([r[-2] for r in rows]), fmt))
        want.append((what + " NLL", np.mean([r[-1] for r in rows]), np.std([r[-1] for r in rows]), fmt))

    powers = [1.0, 0.8, 0.6, 0.4, 0.2]
    # growth model: Transform, Seed, Iter, Power, Damping, RMSE, NLL
    def setting(prefix, tail):
        return [tuple(prefix) + (s,) + tuple(tail) + (value(), value()) for s in seeds]
    u = []
    base = setting(["MCT"], [1, 1.0, 1.0])
    add("growth model, smoother", base, "e")
    u += base
    for p in powers:
        r = setting(["MCT"], [50, p, 0.2])
        add("growth model, power %g" % p, r, "e")
        u += r
    seen = {r[:5] for r in u}
    def others(make, seen):
        out = []
        for _ in range(c["other"]):
            r = make()
            if r not in seen:
                seen.add(r)
                out.append(r + (value() * 50 + 7, value() * 50 + 7))
        return out
    ch = lambda xs: xs[rng.randint(len(xs))]
    other = others(lambda: (ch(["MCT", "UT", "TT"]), ch([1, 7, 300]), ch([1, 2, 49, 50, 51]), ch(powers + [0.1, 0.9]), ch([0.1, 0.2, 0.25, 0.8, 1.0])),
                   seen)
    # rows that do belong to a reported setting are counted by the report as well, so keep only unrelated ones
    other = [r for r in other if not (r[0] == "MCT" and ((r[2] == 1 and r[3] == 1.0 and r[4] == 1.0) or
                                                        (r[2] == 50 and r[3] in powers and r[4] == 0.2)))]
    n_other = len(other)
    build("ungm_final_2.db", "Transform TEXT, Seed INT, Iter REAL, Power REAL, Damping REAL, RMSE REAL, NLL REAL", "UNGM_EXP",
          u + other, c["order"], rng)
    # turning target: Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL
    b = []
    base = setting(["MCT", "angle"], [1, 1.0, 1.0])
    add("turning target, smoother", base, "e")
    b += base
    for p in powers:
        r = setting(["MCT", "angle"], [50, p, 1.0])
        add("turning target, power %g" % p, r, "e")
        b += r
    other = others(lambda: (ch(["MCT", "UT", "TT"]), ch(["angle", "position", "velocity"]), ch([1, 7, 300]), ch([1, 2, 49, 50, 51]),
                            ch(powers + [0.1, 0.9]), ch([0.2, 0.8, 1.0])), {r[:6] for r in b})
    other = [r for r in other if not (r[0] == "MCT" and r[1] == "angle" and r[5] == 1.0 and
                                      ((r[3] == 1 and r[4] == 1.0) or (r[3] == 50 and r[4] in powers)))]
    n_other += len(other)
    build("../log/bott_final_2.db", "Transform TEXT, Quantity TEXT, Seed INT, Iter REAL, Power REAL, Damping REAL, RMSE REAL, NLL REAL",
          "BOTT_EXP", b + other, c["order"], rng)
    # Lorenz 96 by dimension: Transform, dim, Seed, Iter, Power, Damping, RMSE, NLL
    l = []
    dims = [5, 10, 20, 40, 100, 200]
    for d in dims:
        base, r = setting(["UT", d], [0, 1.0, 1.0]), setting(["UT", d], [9, 1.0, 1.0])
        add("Lorenz 96 in %d dimensions, smoother" % d, base, "f")
        add("Lorenz 96 in %d dimensions, power EP" % d, r, "f")
        l += base + r
    other = others(lambda: (ch(["UT", "MCT", "TT"]), ch(dims + [1, 50]), ch([1, 7, 300]), ch([0, 1, 8, 9, 10]), ch([1.0, 0.8, 0.1]),
                            ch([1.0, 0.8])), {r[:6] for r in l})
    other = [r for r in other if not (r[0] == "UT" and r[1] in dims and r[3] in (0, 9) and r[4] == 1.0 and r[5] == 1.0)]
    n_other += len(other)
    build("../log/L96_dim_experiment_3.db", "Transform TEXT, dim INT, Seed INT, Iter REAL, Power REAL, Damping REAL, RMSE REAL, NLL REAL",
          "L96_EXP", l + other, c["order"], rng)
    # iterated smoothers
    def iterated(path, table, cols, prefix, it, what, junk):
        rows = [tuple(prefix) + (s, it, value(), value()) for s in SEEDS]
        want.append((what + " RMSE", np.mean([r[-2] for r in rows]), np.std([r[-2] for r in rows]), "g"))
        want.append((what + " NLL", np.mean([r[-1] for r in rows]), np.std([r[-1] for r in rows]), "g"))
        build(path, cols + "Seed INT, Iter REAL, RMSE REAL, NLL REAL", table, rows + junk, c["order"], rng)
    k = c["other"] // 4
    iterated("../log/IEKS_ungm.db", "UNGM_EXP", "", [], 50, "growth model, iterated smoother",
             [(2000 + i, ch([1, 50, 10]), 99.0, 99.0) for i in range(0, k)] + [(s, 10, 77.0, 77.0) for s in SEEDS[:k]])
    iterated("../log/IEKS_bott.db", "BOTT_EXP", "Quantity TEXT, ", ["angle"], 50, "turning target, iterated smoother",
             [(ch(["position", "velocity"]), ch(SEEDS), 50, 99.0, 99.0) for _ in range(k)] + [("angle", s, 10, 77.0, 77.0) for s in SEEDS[:k]])
    iterated("../log/IEKS_L96.db", "L96_EXP", "dim INT, ", [20], 10, "Lorenz 96, iterated smoother",
             [(ch([5, 40, 10]), ch(SEEDS), 10, 99.0, 99.0) for _ in range(k)] + [(20, s, 50, 77.0, 77.0) for s in SEEDS[:k]])

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        runpy.run_path(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "Experiments", "DisplayResults.py"))
    gc.collect()
    text = out.getvalue()
    num = r"([-+0-9.einfa]+)"
    got = []
    for line in text.splitlines():
        m = re.match(r"(?:Kalman Smoother|Power EP \([0-9.]+\))\s+%s \+/- %s\s+%s \+/- %s" % (num, num, num, num), line)
        if m:
            v = [float(x) for x in m.groups()]
            got += [(v[0], v[1]), (v[2], v[3])]
        m = re.match(r"(?:RMSE|NLL): %s \+/- %s" % (num, num), line)
        if m:
            got.append(tuple(float(x) for x in m.groups()))
    W.require(len(got) == len(want), "%d printed results for %d settings:\n%s", len(got), len(want), text[:800])
    for (what, mean, spread, fmt), (a, b) in zip(want, got):
        for name, g, w in (("mean", a, mean), ("spread", b, spread)):
            tol = {"e": 0.006 * 10.0 ** np.floor(np.log10(max(abs(w), 1e-12)) + 1e-9) + 1e-12, "f": 0.0051, "g": 1e-9 + 1e-9 * abs(w)}[fmt]
            W.require(abs(g - w) <= tol, "%s: printed %s %g, the saved results have %g", what, name, g, w)
    ctx.label("seeds=%d" % c["seeds"], c["order"])
    ctx.nontrivial(c["seeds"] >= 2 and n_other >= 20)
