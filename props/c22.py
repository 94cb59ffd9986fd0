"""The result store returns what was stored, once per key, and keeps committed data."""
from side import G, W, np, st, composite
import os
import sqlite3

N = {"quick": 220, "thorough": 6000}
RULE = ("Histories of table creation, trajectory and result inserts (repeated keys, arrays of any shape and dtype, lists of "
        "arrays), commits, rollbacks, reopening, and process death, on both result layouts; a dictionary with first-write-wins "
        "keys is the reference, and a second connection sees exactly the committed part. Non-trivial: at least 3 inserts, one "
        "of them of an existing key, and a commit.")

DTYPES = ["float64", "float32", "int64", "int32", "bool", "complex128"]


@composite
def array(draw, low=0):
    # PyPy's own pickle module rejects two empty (or one-byte) arrays in one list, so lists get neither
    shape = draw(st.lists(st.integers(low, 4), min_size=0, max_size=3))
    return {"shape": shape, "dtype": draw(st.sampled_from([x for x in DTYPES if not low or x != "bool"])), "seed": draw(st.integers(0, 999)), "view": draw(st.sampled_from(["plain", "T", "slice", "special"]))}


def entry():
    """What a stored list may hold: arrays, numbers, text, nothing, and lists or tuples of these."""
    leaf = st.one_of(array(1), array(1), array(1), st.sampled_from([None, 1.5, -3, "text", True]).map(lambda v: {"v": v}))
    return st.one_of(leaf, leaf, leaf, leaf, st.tuples(st.sampled_from(["l", "t"]), st.lists(leaf, max_size=2)).map(lambda p: {p[0]: p[1]}))


@composite
def op(draw):
    k = draw(st.sampled_from(["dyn", "dyn", "exp", "exp", "exp", "exp", "commit", "commit", "rollback", "reopen", "create", "die"]))
    if k == "dyn":
        return {"op": k, "table": draw(st.integers(0, 1)), "seed": draw(st.integers(-2, 3)),
                "data": draw(st.lists(st.tuples(array(), array()).map(list), min_size=0, max_size=4)),
                "repeat": draw(st.sampled_from([1, 1, 1, 1, 1, 1, 1, 1, 50, 300]))}
    if k == "exp":
        return {"op": k, "table": draw(st.integers(0, 1)), "transform": draw(st.sampled_from(["UT", "TT", "MCT", "x'y", "ut", "UT "])), "seed": draw(st.integers(-1, 2)),
                "iter": draw(st.integers(0, 2)), "power": draw(st.sampled_from([1, 0.1, 0.30000000000000004, 0.3])),
                "damping": draw(st.sampled_from([1.0, 0.8])), "rmse": draw(st.floats(-1e300, 1e300, allow_nan=False)),
                "nll": draw(st.floats(allow_nan=False, width=64)), "mean": draw(st.lists(entry(), max_size=3)), "var": draw(st.lists(entry(), max_size=2)),
                "quantity": draw(st.sampled_from(["position", "velocity", "angle"]))}
    return {"op": k}


@composite
def case(draw, tier):
    ops, ins = [], []
    for i in range(draw(st.integers(4, 16))):
        if ins and draw(st.integers(0, 2)) == 0:  # an existing key, with other values
            o = dict(ins[draw(st.integers(0, len(ins) - 1))])
            if o["op"] == "exp":
                o.update(rmse=draw(G.num(0, 9)), nll=draw(G.num(-9, 9)))
                if draw(st.integers(0, 3)) == 0:  # another key after all
                    o["transform"] = o["transform"].swapcase()
            else:
                o["data"] = draw(st.lists(st.tuples(array(), array()).map(list), min_size=1, max_size=4))
        else:
            o = draw(op())
        ops.append(o)
        if o["op"] in ("dyn", "exp"):
            ins.append(o)
    return {"ops": ops, "layout": draw(st.sampled_from(["plain", "quantity"])),
            "default_path": draw(st.booleans())}


def strategy(tier):
    return case(tier)


def examples():
    """Arrays far larger than random ones, and a long list."""
    big = [{"shape": s, "dtype": t, "seed": 3, "view": v} for s, t, v in (([90, 80], "float64", "plain"), ([3000], "int64", "slice"), ([2, 50, 60], "float64", "T"))]
    small = {"shape": [2, 2], "dtype": "float64", "seed": 5, "view": "T"}
    exp = {"op": "exp", "table": 0, "transform": "UT", "seed": 1, "iter": 1, "power": 0.3, "damping": 0.8, "rmse": 1.5, "nll": 2.5,
           "mean": [big[0], {"v": None}, small] + [{"v": k} for k in range(150)], "var": [{"l": big[1:]}, {"t": [small, {"v": None}]}], "quantity": "angle"}
    ops = [{"op": "dyn", "table": 0, "seed": 1, "data": [big[:2], big[1:], [small, big[0]]], "repeat": 1}, exp, {"op": "commit"}, {"op": "reopen"}]
    ops.append({"op": "dyn", "table": 1, "seed": 4, "data": [[small, small]], "repeat": 320})
    return [{"ops": ops, "layout": "plain", "default_path": False}, {"ops": ops[:1] + ops[2:], "layout": "quantity", "default_path": True}]


def make(a):
    if "v" in a:
        return a["v"]
    if "l" in a or "t" in a:
        return [make(x) for x in a["l"]] if "l" in a else tuple(make(x) for x in a["t"])
    rng = np.random.RandomState(a["seed"])
    x = np.asarray(rng.randn(*a["shape"]) * 10).astype(a["dtype"])
    if a["view"] == "T":
        x = x.T
    elif a["view"] == "slice" and x.ndim:
        x = x[::-1]
    elif a["view"] == "special" and x.dtype.kind == "f" and x.size:
        x = x.copy()
        x.flat[0] = [np.nan, np.inf, -0.0, 1e-320][a["seed"] % 4]
    return x


def same(a, b):
    if isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b and (isinstance(a, bool) or not isinstance(b, bool))


def read(conn, tables, layout):
    out = {}
    for t in ("DYN0", "DYN1"):
        if t in tables:
            for seed, time, x, y in conn.execute("SELECT Seed, t, X, Y FROM %s" % t):
                W.require((t, seed, time) not in out, "two rows for one key in %s", t)
                out[(t, seed, time)] = (x, y)
    for t in ("EXP0", "EXP1"):
        if t in tables:
            if layout == "plain":
                for r in conn.execute("SELECT Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance FROM %s" % t):
                    W.require((t,) + r[:5] not in out, "two rows for one key in %s", t)
                    out[(t,) + r[:5]] = r[5:]
            else:
                for r in conn.execute("SELECT Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL FROM %s" % t):
                    W.require((t,) + r[:6] not in out, "two rows for one key in %s", t)
                    out[(t,) + r[:6]] = r[6:]
    return out


def compare(what, got, want):
    W.require(set(got) == set(want), "%s: keys %s, expected %s", what, sorted(map(str, set(got) - set(want)))[:3] or "missing",
              sorted(map(str, set(want) - set(got)))[:3] or "fewer")
    for k in want:
        for a, b in zip(got[k], want[k]):
            W.require(same(a, b), "%s: %s holds %r, expected %r", what, k, a, b)


def check(c, ctx):
    import Utils.Database as D
    import Experiments.EP_Sweep_BearingsOnly as BO
    layout = c["layout"]
    E = D if layout == "plain" else BO
    path = os.path.join(os.getcwd(), "temp.db") if c["default_path"] else os.path.join(W.SCRATCH, "c22.db")
    for suffix in ("", "-journal", "-wal", "-shm"):
        if os.path.exists(path + suffix):
            os.remove(path + suffix)

    def connect():
        return D.open_database() if c["default_path"] else D.open_database(path)

    def create(conn):
        cur = conn.cursor()
        for i in (0, 1):
            D.create_dynamics_table(cur, name="DYN%d" % i)
            E.create_experiment_table(cur, table_name="EXP%d" % i)

    def insert(conn, o):
        cur = conn.cursor()
        if o["op"] == "dyn":
            data = [(make(x), make(y)) for x, y in o["data"] * o.get("repeat", 1)]
            keep = [(x.copy(), y.copy()) for x, y in data]
            D.insert_dynamics_data(cur, "DYN%d" % o["table"], data, o["seed"])
            for (x, y), (a, b) in zip(data, keep):
                W.require(same(x, a) and same(y, b), "storing a trajectory changed it")
            return [(("DYN%d" % o["table"], o["seed"], float(i)), d) for i, d in enumerate(keep)]
        t = "EXP%d" % o["table"]
        if layout == "plain":
            mean, var = [make(a) for a in o["mean"]], [make(a) for a in o["var"]]
            row = D.Exp_Data(Transform=o["transform"], Seed=o["seed"], Iter=o["iter"], Power=o["power"], Damping=o["damping"],
                             RMSE=o["rmse"], NLL=o["nll"], Mean=mean, Variance=var, Nodes=[])._asdict()
            del row["Nodes"]
            E.insert_experiment_data(cur, t, row)
            again = [make(a) for a in o["mean"]], [make(a) for a in o["var"]]
            return [((t, o["transform"], o["seed"], float(o["iter"]), float(o["power"]), o["damping"]), (o["rmse"], o["nll"]) + again)]
        row = BO.Exp_Data(Transform=o["transform"], Quantity=o["quantity"], Seed=o["seed"], Iter=o["iter"], Power=o["power"],
                          Damping=o["damping"], RMSE=o["rmse"], NLL=o["nll"])._asdict()
        E.insert_experiment_data(cur, t, row)
        return [((t, o["transform"], o["quantity"], o["seed"], float(o["iter"]), float(o["power"]), o["damping"]), (o["rmse"], o["nll"]))]

    tables = ("DYN0", "DYN1", "EXP0", "EXP1")
    conn = connect()
    create(conn)
    conn.commit()
    live, saved = {}, {}
    inserts = repeats = commits = 0
    for o in c["ops"]:
        k = o["op"]
        if k in ("dyn", "exp"):
            for key, val in insert(conn, o):
                inserts += 1
                repeats += key in live
                live.setdefault(key, val)
        elif k == "commit":
            conn.commit()
            saved = dict(live)
            commits += 1
        elif k == "rollback":
            conn.rollback()
            live = dict(saved)
        elif k == "create":
            create(conn)
        elif k == "reopen":
            conn.close()
            live = dict(saved)
            conn = connect()
        elif k == "die":
            # another process stores one row, commits, stores a second one and dies
            conn.commit()
            saved = dict(live)
            rows = [x for x in c["ops"] if x["op"] == "exp"][:1]
            if not rows:
                continue
            first = dict(rows[0], seed=77)
            second = dict(rows[0], seed=78)
            pid = os.fork()
            if pid == 0:
                try:
                    other = connect()
                    insert(other, first)
                    other.commit()
                    insert(other, second)
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)
            t = "EXP%d" % first["table"]
            quantity = (first["quantity"],) if layout == "quantity" else ()
            key = (t, first["transform"]) + quantity + (77, float(first["iter"]), float(first["power"]), first["damping"])
            val = (first["rmse"], first["nll"])
            if layout == "plain":
                val += ([make(a) for a in first["mean"]], [make(a) for a in first["var"]])
            live.setdefault(key, val)
            saved = dict(live)
            ctx.label("writer died")
        compare("after %s" % k, read(conn, tables, layout), live)
        second = sqlite3.connect(path, detect_types=sqlite3.PARSE_DECLTYPES)
        compare("committed part after %s" % k, read(second, tables, layout), saved)
        second.close()
    conn.close()
    conn = connect()
    compare("after reopening", read(conn, tables, layout), saved)
    conn.close()
    ctx.label(layout)
    ctx.nontrivial(inserts >= 3 and repeats and commits)
