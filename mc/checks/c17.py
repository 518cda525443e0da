"""C17: correlation tables are the correlations of the documented quantities."""
import itertools

from mc import ref, specs

ID = "C17"
RULE = (
    "For every model configuration (measurement layouts, observed factors, anchoring, names) every nonempty subset of factors "
    "(single ones as a string, also in reversed order, also None) x every nonempty subset of periods (single ones as an integer, "
    "also in reversed order, also None) x the three public functions; for selected models also every pattern of missing cells up "
    "to a bound, absent rows, shuffled rows, other period labels and surplus columns.  Each table is compared entry by entry, by "
    "its labels, with pairwise Pearson correlations computed in plain Python from the documented quantities.  states = requests, "
    "transitions = table entries compared."
)
BOUNDS = {
    "quick": "<=1 deviation from plain with 3 periods in layout, nf, obs, anch, T, names, norm; all factor and period subsets (where they make more than 40 requests: all factor subsets x 4 period requests and 4 factor requests x all period subsets); all single missing cells of 2 individuals and all pairs of missing cells of one individual on 2 models; 5 of the special models",
    "thorough": "<=2 deviations; all pairs of missing cells of two individuals on 4 models; all triples of cells on one",
}
ASSUMPTIONS = [
    "six individuals with fixed generic values",
    "a factor without measurements in a period has no score: its entries are missing or absent",
    "correlations with fewer than two common observations are not defined",
]
DIMS = ["nf", "T", "layout", "obs", "anch", "names", "norm"]
BASE = {**specs.PLAIN, "f1": "linear", "anch": "0", "obs": 1}
N = 6


def configs(tier):
    S = specs
    d = 1 if tier == "quick" else 2
    empty = [S.normalize({**S.MINIMAL, "nf": 2, "T": 3, "layout": x, "obs": o}) for x in ("empty_first", "empty_mid", "empty_last") for o in (0, 1)]
    wide = [{**S.WIDE[1], "f1": "linear"}, {**S.WIDE[2], "f0": "linear"}, {**S.WIDE[5], "f0": "linear", "f1": "linear", "mix": 1, "anch": "0"}, {**S.WIDE[6], "mix": 1}, {**S.WIDE[7], "f1": "linear"}]
    return S.union(empty, wide, S.explore(BASE, d, DIMS), S.explore({**S.MINIMAL, "obs": 2}, d, DIMS), S.explore({**BASE, "nf": 3, "layout": "mid_shared", "obs": 2}, d - 1, DIMS))


MISSING = [{**BASE, "T": 2}, {**BASE, "T": 2, "layout": "std", "obs": 0, "anch": "none"}, {**BASE, "layout": "ragged", "obs": 2}, {**BASE, "layout": "mid_shared"}]


def cases(tier):
    out = [{"label": "requests " + specs.label(c), "mode": "requests", "cfg": specs.normalize(c), "full": tier == "thorough"} for c in configs(tier)]
    for c in MISSING[: 2 if tier == "quick" else 4]:
        b = specs.build(c)
        cells = b.cells() + [(t, o) for o in b.observed for t in range(b.T)]
        pats = [[(0, *c1)] for c1 in cells] + [[(3, *c1)] for c1 in cells]
        pats += [[(0, *a), (0, *z)] for a, z in itertools.combinations(cells, 2)]
        if tier == "thorough":
            pats += [[(0, *a), (3, *z)] for a in cells for z in cells]
        if tier == "thorough" and c is MISSING[1]:
            pats += [[(0, *x) for x in combo] for combo in itertools.combinations(cells, 3)]
        pats += [[(i, *x) for x in cells] for i in range(N)]  # an empty individual
        pats += [[(i, *x) for x in cells if x[0] == t] for i in (0, 3) for t in range(b.T)]
        pats += [[(i, *x) for i in range(N)] for x in cells]  # a variable that is never observed
        pats += [[(i, *x) for i in range(N - 2)] for x in cells]  # observed twice
        for k in range(0, len(pats), 40):
            out.append({"label": f"missing {specs.label(c)} #{k}", "mode": "missing", "cfg": c, "pats": pats[k : k + 40]})
    return out


def frame(b, missing=()):
    import numpy as np
    import pandas as pd

    miss = {tuple(m) for m in missing}
    rows = []
    for i in range(N):
        for t in range(b.T):
            row = {"id": i, "period": t}
            for v in list(b.variables()) + b.observed + b.controls:
                ok = (i, t, v) not in miss and (((t, v) in b.cells()) or v in b.observed or v in b.controls)
                row[v] = specs.val(-1, 1, "c17", v, t, i) if ok else np.nan
            rows.append(row)
    return pd.DataFrame(rows).set_index(["id", "period"])


def pearson(a, b):
    pairs = [(x, y) for x, y in zip(a, b) if x == x and y == y]
    n = len(pairs)
    if n < 2:
        return float("nan")
    mx, my = sum(p[0] for p in pairs) / n, sum(p[1] for p in pairs) / n
    sxy = sum((x - mx) * (y - my) for x, y in pairs)
    sxx = sum((x - mx) ** 2 for x, _ in pairs)
    syy = sum((y - my) ** 2 for _, y in pairs)
    if sxx < 1e-20 or syy < 1e-20:
        return None  # not decided: no variance
    return sxy / (sxx * syy) ** 0.5


def mean(vals):
    vals = [v for v in vals if v == v]
    return sum(vals) / len(vals) if vals else float("nan")


def quantities(kind, b, r, data, P, factors, periods):
    """label -> list of values per individual, as documented."""
    nan = float("nan")
    out = {}
    for t in periods:
        suffix = f", {t}" if len(periods) > 1 else ""
        rows = [u for u, x in enumerate(r.updates) if x[0] == t and x[4] == "measurement"]
        for f in factors:
            if f in b.observed:
                out[f + suffix] = [data.get((i, t, f), nan) for i in range(N)]
                continue
            mine = [u for u in rows if f in r.updates[u][3]]
            cols = {r.updates[u][1]: [data.get((i, t, r.updates[u][1]), nan) for i in range(N)] for u in mine}
            if kind == "measurements":
                for m, v in cols.items():
                    out[f"{m}{suffix}" if suffix else m] = v
                continue
            if kind == "quasi":
                for m, v in cols.items():
                    obs = [x for x in v if x == x]
                    if len(obs) > 1:
                        mu = sum(obs) / len(obs)
                        sd = (sum((x - mu) ** 2 for x in obs) / (len(obs) - 1)) ** 0.5
                        cols[m] = [(x - mu) / sd for x in v]
                    else:
                        cols[m] = [nan] * N
            else:
                keep = {}
                for u in mine:
                    m = r.updates[u][1]
                    if len(r.updates[u][3]) == 1:
                        j = r.latent.index(f)
                        keep[m] = [(x - P["controls"][u][0]) / P["loadings"][u][j] for x in cols[m]]
                cols = keep
            out[f + suffix] = [mean([cols[m][i] for m in cols]) for i in range(N)]
    return out


def compare(kind, got, q, res, where):
    import numpy as np

    empty = {k for k, v in q.items() if not any(x == x for x in v)}
    for axis, labels in (("rows", list(got.index)), ("columns", list(got.columns))):
        ok = len(set(labels)) == len(labels) and set(labels) <= set(q) and set(q) - set(labels) <= empty
        if not res.check(ok, f"{kind}:{axis}", f"{where}: {axis} are {labels}, expected {sorted(map(str, q))}"):
            return
    idx, cols = {k: i for i, k in enumerate(got.index)}, {k: i for i, k in enumerate(got.columns)}
    arr = got.to_numpy(dtype=float)
    want = np.full(arr.shape, np.nan)
    keys = list(q)
    for i, a in enumerate(keys):
        for b in keys[: i + 1]:
            c = pearson(q[a], q[b])
            for x, y in ((a, b), (b, a)):
                if x in idx and y in cols:
                    want[idx[x], cols[y]] = arr[idx[x], cols[y]] if c is None else c
    res.close(arr, want, f"{kind}:values", f"{where}: {list(got.columns)}", atol=1e-9)
    res.transitions += arr.size


def requests(b, full):
    facs = b.factors + b.observed
    if b.T > 4 or len(facs) > 4:
        fs = [None, facs[::-1], facs[-1], [facs[0], facs[-1]]]
        ps = [None, b.T - 1, [b.T - 1, 0], list(range(b.T))[::-1], [b.T // 2]] if b.T > 4 else [None, b.T - 1, 0]
        return list(itertools.product(fs, ps))
    out_f = [None]
    for n in range(1, len(facs) + 1):
        for combo in itertools.combinations(facs, n):
            out_f.append(list(combo))
            if n > 1 and (n == 2 or n == len(facs)):
                out_f.append(list(reversed(combo)))
            if n == 1:
                out_f.append(combo[0])
    out_p = [None] + list(range(b.T))
    for n in range(1, b.T + 1):
        for combo in itertools.combinations(range(b.T), n):
            out_p.append(list(combo))
            if n == b.T > 1:
                out_p.append(list(reversed(combo)))
    if full or len(out_f) * len(out_p) <= 40:
        return list(itertools.product(out_f, out_p))
    some_f = [None, b.factors[-1], facs[:2], list(reversed(facs))]
    some_p = [None, b.T - 1, list(range(b.T - 1, -1, -1)), sorted({0, b.T - 1})]
    pairs = [(f, p) for f in out_f for p in some_p] + [(f, p) for f in some_f for p in out_p if p not in some_p]
    return [x for k, x in enumerate(pairs) if x not in pairs[:k]]


def run(payload, res):
    import pandas as pd

    from mc.common import as_dict, params_for
    from skillmodels.correlation_heatmap import get_measurements_corr
    from skillmodels.correlation_heatmap import get_quasi_scores_corr
    from skillmodels.correlation_heatmap import get_scores_corr

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    params = params_for(r)
    P = r.parse(as_dict(params))

    def ask(df, data, f, p, where, kinds=("measurements", "quasi", "scores")):
        facs = b.factors + b.observed if f is None else [f] if isinstance(f, str) else list(f)
        pers = list(range(b.T)) if p is None else [p] if isinstance(p, int) else list(p)
        for kind in kinds:
            q = quantities(kind, b, r, data, P, facs, pers)
            if not q:
                continue  # nothing is requested
            if kind == "measurements":
                got = get_measurements_corr(df, b.model, f, p)
            elif kind == "quasi":
                got = get_quasi_scores_corr(df, b.model, f, p)
            else:
                got = get_scores_corr(df, params, b.model, f, p)
            compare(kind, got, q, res, f"{where} factors={f} periods={p}")
            res.states += 1
            res.traces += 1
            if len(res.outcomes) < 200:
                res.saw(got.round(6).to_numpy())
        return got

    if payload["mode"] == "requests":
        df = frame(b, [(1, *b.cells()[-1])])
        data = lookup(df)
        asked = requests(b, payload["full"])
        for f, p in asked:
            got = ask(df, data, f, p, "")
        # other presentations of the same data
        shuffled = df.iloc[::-1].iloc[[k for k in range(1, len(df))] + [0]]
        relabel = df.copy()
        relabel.index = pd.MultiIndex.from_tuples([(f"p{i}", 2000 + 5 * t) for i, t in df.index], names=["pid", "year"])
        surplus = relabel.copy()
        surplus["period"] = [k for _, k in surplus.index]
        surplus["id"] = 1
        for f, p in ((None, None), (None, b.T - 1)):
            for name, d in (("shuffled", shuffled), ("relabelled", relabel), ("surplus columns", surplus)):
                ask(d, data, f, p, name)
        res.sample({"cfg": payload["label"], "requests": len(asked), "last table": got.round(4).to_dict()})
    else:
        for pat in payload["pats"]:
            df = frame(b, pat)
            data = lookup(df)
            ask(df, data, None, None, f"missing {pat[:3]}")
            ask(df, data, None, b.T - 1, f"missing {pat[:3]}")
            gone = df.isnull().all(axis=1)
            if gone.any() and not gone.groupby(level=0).all().any():
                ask(df[~gone], data, None, None, f"absent rows {pat[:3]}")


def lookup(df):
    out = {}
    for c in df.columns:
        for (i, t), v in zip(df.index, df[c].tolist()):
            out[(i, t, c)] = v
    return out
