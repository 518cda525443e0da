"""C09: panel data are aligned by individual and period whatever their layout."""
import itertools

from mc import ref, specs

ID = "C09"
RULE = (
    "Histories of a panel: every set of present person-period rows of a small panel (restricted to sets that the data check "
    "accepts), every order of few rows and rotations/reversals of many, every labelling of individuals and periods from an "
    "alphabet (integers with gaps, negative, strings, floats, timestamps, mixed-length strings), every internal "
    "representation of the index (unused levels, unsorted levels, categorical levels, swapped names, no names, colliding "
    "column names), surplus columns and periods, column orders and dtypes. The arrays built for estimation and simulation "
    "must equal the values looked up row by row in the user's frame; the real likelihood is evaluated on a subset."
)
BOUNDS = {
    "quick": "all presence patterns of 4x2 and 3x3 panels and of 4x3 and 3x4 panels with one surplus period; 24 orders of 4 rows, 8 rotations; 7x6 labellings x 8 representations x 4 presence patterns; likelihood on 1 of 40 layouts; 12 individuals with 12 periods",
    "thorough": "all presence patterns of 5x2, 4x3 and 3x3 panels x 3 orders; all labellings x representations x 16 presence patterns; likelihood on 1 of 10 layouts",
}
ASSUMPTIONS = ["(individual, period) pairs are unique", "labels of one level are mutually comparable"]

CFG = {**specs.MINIMAL, "nf": 2, "layout": "shared", "controls": 2, "anch": "10", "mix": 2}
CFG3 = {**specs.MINIMAL, "nf": 2, "T": 3, "layout": "ragged", "controls": 1, "anch": "0"}
LONG = {**specs.MINIMAL, "nf": 2, "T": 12, "f1": "linear", "layout": "late", "controls": 1, "obs": 1, "mix": 2, "anch": "0"}
OBS = {**specs.MINIMAL, "nf": 1, "layout": "pername", "controls": 1, "obs": 2}


def id_schemes(n):
    import pandas as pd

    return {
        "gaps": [3, 10, 11, 500, 777][:n],
        "negative": [-7, -2, 0, 4, 9][:n],
        "strings": ["10", "9", "a", "b", "c"][:n],
        "floats": [0.5, 1.5, 2.0, 7.25, 8.0][:n],
        "dates": list(pd.to_datetime(["1999-01-01", "2001-05-06", "2010-01-01", "2011-01-01", "2012-01-01"][:n])),
        "tuple-like strings": ["p1", "p1_1", "p2", "q", "r"][:n],
        "large": [10**12, 10**12 + 1, 10**12 + 5, 10**13, 10**14][:n],
    }


def period_schemes(n):
    import pandas as pd

    return {
        "from0": list(range(n)),
        "from1": list(range(1, n + 1)),
        "years": [1997, 2000, 2001, 2009][:n],
        "strings": ["10", "9", "a", "b"][:n],
        "dates": list(pd.to_datetime(["1999-01-01", "2001-05-06", "2010-01-01", "2011-01-01"][:n])),
        "floats": [-1.5, 0.25, 3.0, 9.0][:n],
    }


REPS = ["plain", "unused", "unsorted", "categorical", "noname", "swapname", "columns", "objects"]


def cases(tier):
    out = []
    deep = tier == "thorough"
    shapes = [("C", 4), ("3", 3)] if not deep else [("C", 5), ("3", 3), ("3", 4)]
    for which, n in shapes:
        T = 2 if which == "C" else 3
        total = 2 ** (n * T)
        step = 64 if not deep else 256
        for lo in range(1, total, step):
            out.append({"label": f"presence {which} {n}x{T} {lo}..", "mode": "presence", "which": which, "n": n, "lo": lo, "hi": min(total, lo + step), "orders": 3 if deep else 1})
    out.append({"label": "row orders", "mode": "orders"})
    for i in id_schemes(1):
        out.append({"label": f"labels {i}", "mode": "labels", "ids": i, "patterns": 16 if deep else 4, "every": 10 if deep else 40})
    out.append({"label": "surplus", "mode": "surplus"})
    # every set of present rows of a panel that goes beyond the last period of the model
    for which, n, T, total in [("C", 4, 3, 4096), ("3", 3, 4, 4096)] + ([("C", 4, 4, 65536)] if deep else []):
        for lo in range(1, total, 256):
            out.append({"label": f"surplus presence {which} {n}x{T} {lo}..", "mode": "surplus presence", "which": which, "n": n, "T": T, "lo": lo, "hi": min(total, lo + 256)})
    for k in range(4):
        out.append({"label": f"long {k}", "mode": "long", "part": k})
    out.append({"label": "columns", "mode": "columns"})
    return out


def world(which):
    cfg = {"C": CFG, "3": CFG3, "O": OBS, "L": LONG}[which]
    b = specs.build(cfg)
    r = ref.Ref(b.model)
    return b, r


def full(b, r, n, T=None):
    """List of rows (i, t, values) of a complete panel with distinct values everywhere."""
    import numpy as np

    cols = b.variables() + b.controls + b.observed
    T = T or b.T
    rows = {}
    for i in range(n):
        for t in range(T):
            rows[i, t] = {c: round(specs.val(-1.5, 1.5, "cell", c, i, t), 4) for c in cols}
    # some cells of present rows are missing too
    ms = b.variables()
    rows[0, T - 1][ms[0]] = np.nan
    rows[n - 1, 0][ms[-1]] = np.nan
    return cols, rows


def frame(cols, rows, order, ids, periods, rep="plain"):
    import numpy as np
    import pandas as pd

    idx = [(ids[i], periods[t]) for i, t in order]
    data = {c: [rows[k][c] for k in order] for c in cols}
    mi = pd.MultiIndex.from_tuples(idx, names=["id", "period"])
    df = pd.DataFrame(data, index=mi)
    if rep == "unused":
        # levels of further individuals and periods without any row
        more_i, more_t = list(ids) + [bigger(ids[-1], 1), smaller(ids[0])], list(periods) + [smaller(periods[0])]
        lev = [sorted(set(more_i)), sorted(set(more_t))]
        codes = [[lev[0].index(k[0]) for k in idx], [lev[1].index(k[1]) for k in idx]]
        df.index = pd.MultiIndex(levels=lev, codes=codes, names=["id", "period"])
    elif rep == "unsorted":
        lev = [sorted({k[0] for k in idx})[::-1], sorted({k[1] for k in idx})[::-1]]
        codes = [[lev[0].index(k[0]) for k in idx], [lev[1].index(k[1]) for k in idx]]
        df.index = pd.MultiIndex(levels=lev, codes=codes, names=["id", "period"])
    elif rep == "categorical":
        a = pd.Categorical([k[0] for k in idx], categories=sorted(set(ids)), ordered=True)
        p = pd.Categorical([k[1] for k in idx], categories=sorted(set(periods)), ordered=True)
        df.index = pd.MultiIndex.from_arrays([a, p], names=["id", "period"])
    elif rep == "noname":
        df.index.names = [None, None]
    elif rep == "swapname":
        df.index.names = ["period", "id"]
    elif rep == "columns":
        # surplus columns, some of them with names that the package uses itself
        df["id"] = np.arange(len(df)) * 3.0
        df["period"] = np.arange(len(df))[::-1] % 2
        df["zzz"] = "text"
        df.insert(0, "constant", 5.0)
    elif rep == "objects":
        df = df.astype(object)
        df.index = pd.MultiIndex.from_arrays([pd.Index([k[0] for k in idx], dtype=object), pd.Index([k[1] for k in idx], dtype=object)], names=["child", "age"])
    return df


def bigger(x, k):
    import pandas as pd

    if isinstance(x, str):
        return x + "z"
    if isinstance(x, pd.Timestamp):
        return x + pd.Timedelta(days=k)
    return x + k


def smaller(x):
    import pandas as pd

    if isinstance(x, str):
        return " " + x
    if isinstance(x, pd.Timestamp):
        return x - pd.Timedelta(days=1)
    return x - 1


def expected(b, r, cols, rows, present):
    """Arrays looked up row by row; individuals and periods that occur, in sorted order."""
    import numpy as np

    ii = sorted({i for i, _ in present})
    tt = sorted({t for _, t in present})[: b.T]
    nan = float("nan")

    def get(c, i, t):
        return rows[i, tt[t]][c] if t < len(tt) and (i, tt[t]) in present else nan

    meas = np.array([[get(var, i, t) for i in ii] for t, _, var, _, _ in r.updates], dtype=float)
    ctrl = np.ones((b.T, len(ii), len(r.controls)))
    obs = np.zeros((b.T, len(ii), len(r.observed)))
    for t in range(b.T):
        for j, i in enumerate(ii):
            for k, c in enumerate(r.controls[1:], 1):
                ctrl[t, j, k] = get(c, i, t)
            for k, c in enumerate(r.observed):
                obs[t, j, k] = get(c, i, t)
    return meas, ctrl, obs


def acceptable(b, r, meas, ctrl, obs):
    import numpy as np

    if np.isnan(ctrl).all(axis=1).any() or np.isnan(obs).any():
        return False
    for row in meas:
        if len(set(row[~np.isnan(row)])) == 1:
            return False
    return True


def compare(b, r, proc, df, cols, rows, present, res, label, loglike=False):
    import numpy as np

    from skillmodels.process_data import process_data

    meas, ctrl, obs = expected(b, r, cols, rows, present)
    if not acceptable(b, r, meas, ctrl, obs):
        res.note("layouts that the data check rejects")
        return
    before = df.copy(deep=True)
    try:
        got = process_data(df, proc["labels"], proc["update_info"], proc["anchoring"])
        sim = process_data(df, proc["labels"], proc["update_info"], proc["anchoring"], purpose="simulation")
    except Exception as e:  # noqa: BLE001
        res.fail("raises", f"{label}: {type(e).__name__}: {str(e)[:400]}")
        return
    # rows of the update table may be in any order within the reference: compare by label
    order = [[(t, n) for t, n, *_ in r.updates].index(tuple(k)) for k in proc["update_info"].index]
    res.close(got[0], meas[order], "measurements", label, rtol=0, atol=0)
    seen = np.array([[bool((~np.isnan(meas[[u for u, x in enumerate(r.updates) if x[0] == t]][:, j])).any()) for j in range(meas.shape[1])] for t in range(b.T)])
    bad = np.isnan(ctrl).any(axis=2) & seen
    assert not bad.any()
    # where the panel has no row, only the absence of values is specified
    absent = np.isnan(ctrl[:, :, 1:]).all(axis=2) if ctrl.shape[2] > 1 else np.zeros(ctrl.shape[:2], bool)
    for which, arr in (("estimation", got[1]), ("simulation", sim[0])):
        a = np.array(arr)
        res.check(a.shape == ctrl.shape, f"controls-shape-{which}", f"{label}: {a.shape} instead of {ctrl.shape}")
        if a.shape == ctrl.shape:
            res.close(a[~absent], ctrl[~absent], f"controls-{which}", label, rtol=0, atol=0)
            res.close(a[absent][:, 1:], ctrl[absent][:, 1:], f"controls-absent-{which}", label, rtol=0, atol=0)
    for which, arr in (("estimation", got[2]), ("simulation", sim[1])):
        res.close(arr, obs, f"observed-{which}", label, rtol=0, atol=0)
    res.check(df.equals(before) and list(df.index.names) == list(before.index.names), "mutated", f"{label}: data were changed")
    res.states += 1
    res.transitions += 1
    res.traces += 1
    if loglike:
        from mc.common import as_dict, inputs, params_for

        p = params_for(r)
        out = inputs(b.model, df)["loglike"](p)["contributions"]
        want = r.filter(r.parse(as_dict(p)), meas, np.where(np.isnan(ctrl), 0.0, ctrl), obs)["total"]
        res.close(out, want, "contributions", label)
        res.note("likelihoods evaluated")


def run(payload, res):
    from skillmodels.process_model import process_model

    mode = payload["mode"]
    if mode == "presence":
        b, r = world(payload["which"])
        proc = process_model(b.model)
        n = payload["n"]
        cols, rows = full(b, r, n)
        keys = list(rows)
        ids, per = id_schemes(n)["gaps"], period_schemes(b.T)["from1"]
        for mask in range(payload["lo"], payload["hi"]):
            present = [k for i, k in enumerate(keys) if mask >> i & 1]
            for o in range(payload["orders"]):
                order = [present, present[::-1], present[len(present) // 2 :] + present[: len(present) // 2]][(o + mask) % 3]
                df = frame(cols, rows, order, ids, per)
                compare(b, r, proc, df, cols, rows, set(present), res, f"rows {order}", loglike=mask % 40 == 7 and o == 0)
        res.saw([payload["which"], n, payload["lo"]])
    elif mode == "orders":
        b, r = world("C")
        proc = process_model(b.model)
        for n in (2, 4):
            cols, rows = full(b, r, n)
            keys = list(rows)
            orders = list(itertools.permutations(keys)) if n == 2 else [keys[k:] + keys[:k] for k in range(8)] + [keys[::-1], keys[::2] + keys[1::2], keys[1::2] + keys[::2]]
            if n == 2:
                rows[0, 1][b.variables()[0]] = 0.3
                rows[1, 0][b.variables()[-1]] = 0.4
            for k, order in enumerate(orders):
                ids, per = id_schemes(n)["strings"], period_schemes(b.T)["years"]
                compare(b, r, proc, frame(cols, rows, list(order), ids, per), cols, rows, set(keys), res, f"order {order}", loglike=k % 8 == 0)
        res.saw("orders")
    elif mode == "labels":
        n = 4
        count = 0
        for which in ("C", "3", "O"):
            b, r = world(which)
            proc = process_model(b.model)
            cols, rows = full(b, r, n)
            keys = list(rows)
            ids = id_schemes(n)[payload["ids"]]
            pats = [list(keys)]
            if which != "O":
                for k in range(1, payload["patterns"]):
                    pats.append([x for j, x in enumerate(keys) if (j * 7 + k) % (3 + k % 4)])
            for pname, per in period_schemes(b.T).items():
                for rep in REPS:
                    for q, present in enumerate(pats):
                        order = present[::-1] if q % 2 else present
                        count += 1
                        df = frame(cols, rows, order, ids, per, rep)
                        compare(b, r, proc, df, cols, rows, set(present), res, f"ids {payload['ids']}, periods {pname}, {rep}, rows {len(order)}", loglike=count % payload["every"] == 3)
        res.saw(payload["ids"])
    elif mode == "long":
        # more than nine individuals and periods; one row after the other is left out
        b, r = world("L")
        proc = process_model(b.model)
        n, k = 12, payload["part"]
        cols, rows = full(b, r, n)
        keys = list(rows)
        ids = [list(range(n)), [str(i) for i in range(100, 100 + n)], [5 * i - 20 for i in range(n)], sorted(str(i) for i in range(n))][k]
        per = [list(range(12)), list(range(1, 13)), list(range(1999, 2011)), [3 * t for t in range(12)]][k]
        for j in range(len(keys) + 1):
            present = [x for i, x in enumerate(keys) if i != j]
            order = present[::-1] if j % 2 else present[j:] + present[:j]
            compare(b, r, proc, frame(cols, rows, order, ids, per), cols, rows, set(present), res, f"without row {j}", loglike=j % 48 == 0)
        res.saw(["long", k])
    elif mode == "surplus presence":
        b, r = world(payload["which"])
        proc = process_model(b.model)
        n, T = payload["n"], payload["T"]
        cols, rows = full(b, r, n, T)
        rows[0, T - 1][b.variables()[0]], rows[n - 1, 0][b.variables()[-1]] = 0.31, 0.77  # avoid variables without variance
        keys = list(rows)
        ids, per = id_schemes(n)["gaps"], [5, 7, 8, 20][:T]
        for mask in range(payload["lo"], payload["hi"]):
            present = [k for i, k in enumerate(keys) if mask >> i & 1]
            compare(b, r, proc, frame(cols, rows, present[::-1] if mask % 2 else present, ids, per), cols, rows, set(present), res, f"rows {present}", loglike=mask % 40 == 7)
        res.saw([payload["which"], n, T, payload["lo"]])
    elif mode == "surplus":
        for which in ("C", "3", "O"):
            b, r = world(which)
            proc = process_model(b.model)
            for extra in (1, 2):
                for n in (2, 3):
                    cols, rows = full(b, r, n, b.T + extra)
                    rows[n - 1, 0][b.variables()[-1]] = 0.77  # avoid variables without variance
                    ids, per = id_schemes(n)["gaps"], [5, 7, 8, 20, 21, 22][: b.T + extra]
                    keys = list(rows)
                    for k in range(len(keys) + 1):
                        # complete panel, or without one row of a surplus or of another period
                        present = [x for j, x in enumerate(keys) if j != k]
                        compare(b, r, proc, frame(cols, rows, present, ids, per), cols, rows, set(present), res, f"{which} {extra} surplus periods without row {k}", loglike=k == len(keys))
        res.saw("surplus")
    else:
        for which in ("C", "3", "O"):
            b, r = world(which)
            proc = process_model(b.model)
            cols, rows = full(b, r, 3)
            rows[2, 0][b.variables()[-1]] = 0.77
            keys = list(rows)
            for k in range(len(cols)):
                for rev in (False, True):
                    cc = cols[k:] + cols[:k]
                    cc = cc[::-1] if rev else cc
                    compare(b, r, proc, frame(cc, rows, keys, [1, 2, 3], list(range(b.T))), cols, rows, set(keys), res, f"{which} columns {cc}", loglike=k == 1)
        res.saw("columns")
