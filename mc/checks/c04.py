"""C04: results do not depend on the order in which the user lists things."""
import itertools

from mc import ref, specs

ID = "C04"
RULE = (
    "For each model configuration the listings of the specification are permuted: the measurement lists of every period, "
    "controls, observed factors, anchoring outcomes, normalizations, data columns, data rows, parameter rows (all "
    "permutations of each listing alone, and all pairs of listings permuted together) and, for linear/constant models, the "
    "latent factors themselves (with the initial Cholesky factor of the same covariance). Contributions, value, filtered and "
    "anchored states of each permuted description must equal those of the original, label by label."
)
BOUNDS = {
    "quick": "all permutations of each listing (<=3 entries), all pairs of reversed listings; 12 configurations (6 for debug output), 3 of them with more than nine periods, factors or controls",
    "thorough": "as quick, with all pairs of permutations, for configurations with <=1 deviation from 3 bases",
}
ASSUMPTIONS = ["fixed generic data and parameters attached to labels"]

BASE = {
    "nf": 3, "T": 3, "f0": "linear", "f1": "linear", "f2": "linear", "mix": 2, "controls": 2, "obs": 2,
    "anch": "02", "flags": "1110", "layout": "shared", "norm": "first", "stages": "none", "scale": 2, "names": "abc",
}


def configs(tier):
    B = BASE
    lin = [B, {**B, "anch": "021", "mix": 1}, {**B, "names": "rev", "anch": "10", "f1": "constant"}, {**B, "nf": 2, "anch": "01same", "names": "sub", "layout": "mid_shared"}]
    non = [{**B, "nf": 2, "f1": "translog", "anch": "10"}, {**B, "nf": 2, "f0": "log_ces", "f1": "c_own", "anch": "01", "mix": 1}, {**B, "f2": "translog", "f0": "log_ces_general", "names": "rev", "anch": "20", "mix": 1}, {**B, "nf": 2, "f0": "linear_and_squares", "f1": "robust_translog", "names": "rev", "anch": "10"}, {**B, "nf": 2, "T": 2, "f0": "linear", "f1": "translog", "anch": "10", "flags": "1111", "layout": "std"}]
    wide = [{**specs.WIDE[0], "controls": 2, "obs": 2}, {**specs.WIDE[2], "obs": 2, "controls": 2}, {**specs.WIDE[4], "obs": 2}]
    out = lin + non + wide
    if tier == "thorough":
        dims = {k: v for k, v in specs.DIMS.items() if k not in ("controls", "obs")}
        dims["f0"] = [f for f in specs.BUILTIN] + ["c_own"]
        dims["f1"] = dims["f0"]
        dims["layout"] = ["std", "shared", "mid_shared", "ragged", "late", "empty_mid", "rev"]
        out = specs.union(out, *[specs.explore(B, 1, dims) for B in (lin[0], non[0], non[1])])
    return specs.union([specs.normalize({**c, "anch": c["anch"]}) for c in out])


LISTINGS = ["measurements", "controls", "observed", "anchoring", "columns", "rows", "params"]


def cases(tier):
    out = []
    for c in configs(tier):
        tr = [transform for transform in transforms(c, tier)]
        size = 7
        for i in range(0, len(tr), size):
            out.append({"label": specs.label(c, BASE) + f" #{i // size}", "cfg": c, "transforms": tr[i : i + size]})
    return out


def transforms(c, tier):
    """Lists of (listing, permutation number)."""
    T = []
    perms = {"measurements": 5, "controls": 1, "observed": 1, "columns": 2, "rows": 2, "params": 2}
    if c["anch"] != "none":
        n = sum(ch.isdigit() for ch in c["anch"])
        perms["anchoring"] = {1: 0, 2: 1, 3: 5}[n]
    if c["nf"] < 4 and all(c[f"f{i}"] in ("linear", "constant") for i in range(c["nf"])):
        perms["factors"] = {1: 0, 2: 1, 3: 5}[c["nf"]]
    for k, n in perms.items():
        for j in range(1, n + 1):
            T.append([[k, j]])
    for a, b in itertools.combinations(perms, 2):
        js = [(perms[a], perms[b])] if tier == "quick" else list(itertools.product(range(1, perms[a] + 1), range(1, perms[b] + 1)))
        for ja, jb in js:
            if ja and jb:
                T.append([[a, ja], [b, jb]])
    T.append([[k, n] for k, n in perms.items() if n])
    return T


def permute(seq, j):
    """j-th permutation (0 is the identity); longer sequences: reverse, rotate."""
    seq = list(seq)
    if len(seq) <= 3:
        ps = list(itertools.permutations(range(len(seq))))
        return [seq[i] for i in ps[j % len(ps)]] if len(seq) > 1 else seq
    if j == 1:
        return seq[::-1]
    k = j % len(seq)
    return seq[k:] + seq[:k]


def run(payload, res):
    import copy

    import numpy as np

    from skillmodels import get_filtered_states

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    hists = specs.histories(cells, 1) if len(cells) < 12 else specs.histories(cells[::3], 1)
    hists = hists[:9] + [{c: specs.alt_value(*c) for c in cells}]
    df = b.panel(hists)
    df["unrelated"] = 1.5
    params = params_for(r)
    v0 = as_dict(params)
    base = inputs(b.model, df)["loglike"](params)
    fs0 = get_filtered_states(b.model, df, params)
    want = r.loglike(v0, df)[0]["total"]
    res.close(base["contributions"], want, "contributions")

    for tr in payload["transforms"]:
        m, d, p = copy.deepcopy(b.model), df, None
        names = "+".join(f"{k}{j}" for k, j in tr)
        order = None
        for kind, j in tr:
            if kind == "measurements":
                for k, spec in enumerate(m["factors"].values()):
                    spec["measurements"] = [permute(per, j + k) for per in spec["measurements"]]
                    for nk, lst in spec.get("normalizations", {}).items():
                        spec["normalizations"][nk] = [dict(reversed(list(x.items()))) for x in lst]
            elif kind == "controls":
                m["controls"] = permute(m["controls"], j)
            elif kind == "observed":
                m["observed_factors"] = permute(m["observed_factors"], j)
            elif kind == "anchoring":
                m["anchoring"]["outcomes"] = dict(permute(m["anchoring"]["outcomes"].items(), j))
            elif kind == "columns":
                d = d[permute(d.columns, j)]
            elif kind == "rows":
                d = d.iloc[::-1] if j == 1 else d.iloc[[(7 * i + 3) % len(d) for i in range(len(d))]] if len(d) % 7 else d.sort_index(level=1, sort_remaining=False)
            elif kind == "factors":
                order = permute(list(m["factors"]), j)
                m["factors"] = {k: m["factors"][k] for k in order}
            elif kind == "params":
                p = j
        r2 = ref.Ref(m)
        params2 = params_for(r2)
        if order:
            params2 = with_same_cov(params2, params, r, r2)
        if p:
            params2 = params2.iloc[::-1] if p == 1 else params2.sort_index()
        out = inputs(m, d)["loglike"](params2)
        res.close(out["contributions"], base["contributions"], "order:" + names, f"contributions change with {names}")
        res.close(out["value"], base["value"], "order-value:" + names)
        if len(tr) != 2 or order:
            fs = get_filtered_states(m, d, params2)
            for which in ("anchored_states", "unanchored_states"):
                a, o = fs[which]["states"], fs0[which]["states"]
                key = ["period", "id"]
                a = a.sort_values(key)[key + r.latent].to_numpy(dtype=float)
                o = o.sort_values(key)[key + r.latent].to_numpy(dtype=float)
                res.close(a, o, f"order-{which}:" + names)
                for f in r.latent:
                    res.close(fs[which]["state_ranges"][f].to_numpy(), fs0[which]["state_ranges"][f].to_numpy(), f"order-ranges:" + names)
            res.traces += len(hists)
        res.states += 1
        res.transitions += len(tr)
        res.traces += len(hists)
    res.saw(np.round(base["contributions"], 6))
    res.sample({"cfg": payload["label"], "transforms": payload["transforms"][:3]})


def with_same_cov(params2, params, r, r2):
    """Replace the Cholesky rows of the reordered model by those of the same covariance."""
    import numpy as np

    P = r.parse(dict(zip(list(params.index), params["value"])))
    pos = [r.latent.index(f) for f in r2.latent]
    out = params2.copy()
    vals = dict(zip(list(out.index), out["value"]))
    for k in range(r.M):
        chol = np.linalg.cholesky(P["covs"][k][np.ix_(pos, pos)])
        for i, a in enumerate(r2.latent):
            for j, c in enumerate(r2.latent[: i + 1]):
                vals[("initial_cholcovs", 0, f"mixture_{k}", f"{a}-{c}")] = chol[i, j]
    out["value"] = [vals[lab] for lab in out.index]
    return out
