"""C03: an individual's contribution depends only on that individual's data."""
import itertools

from mc import ref, specs

ID = "C03"
RULE = (
    "For each model configuration a population of 5 individuals (distinct values, some missing cells). Every sub-population "
    "of size >= 3, every single removal, duplication and alteration of the others, crowds with extreme and with empty individuals, several row orders and identifier "
    "labelings are evaluated on the real likelihood; contributions and filtered states of each individual must equal those "
    "in the full population, be in sorted order of the identifiers, and sum to the value."
)
BOUNDS = {
    "quick": "16 sub-populations + 6 transformations x configurations with <=1 deviation in 7 dimensions from rich and minimal",
    "thorough": "same transformations x configurations with <=1 deviation in all dimensions from 4 bases, <=2 from minimal (structural)",
}
ASSUMPTIONS = ["fixed generic data and parameters", "measurements keep at least two distinct values (smaller populations are rejected by the data check)"]


def cases(tier):
    S = specs
    dims = ["nf", "T", "mix", "controls", "obs", "anch"]
    if tier == "quick":
        cfgs = S.union(S.explore(S.RICH, 1, {**{k: S.DIMS[k] for k in ("mix", "controls", "obs")}, "anch": ["none", "01"], "nf": [1, 3], "f1": ["log_ces"], "layout": ["empty_mid"]}), S.explore(S.MINIMAL, 1, {"mix": [2, 3], "obs": [2], "controls": [2], "anch": ["0"]}))
    else:
        cfgs = S.union(*[S.explore(B, 1) for B in (S.RICH, S.MINIMAL, S.RICHLIN, S.PLAIN)], S.explore(S.MINIMAL, 2, dims))
    return [{"label": S.label(c), "cfg": c} for c in cfgs]


N = 5


def population(b):
    import numpy as np

    cells = b.cells()
    hists = []
    for i in range(N):
        h = {}
        for k, c in enumerate(cells):
            h[c] = round(specs.val(-1.2, 1.2, "pop", i, *c), 3)
            if k % (N + 2) == i and k > 0:
                h[c] = np.nan
        hists.append(h)
    return hists


def run(payload, res):
    import numpy as np
    import pandas as pd

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    hists = population(b)
    full = b.panel(hists, ids=list(range(N)))
    params = params_for(r)
    base = inputs(b.model, full)
    out0 = base["loglike"](params)
    c0 = out0["contributions"]
    res.close(c0, r.loglike(as_dict(params), full)[0]["total"], "contributions")
    res.close(out0["value"], c0.sum(), "value-is-sum")
    d0 = base["debug_loglike"](params)["filtered_states"]
    f0 = {i: d0[d0["id"] == i][r.latent].to_numpy() for i in range(N)}

    def compare(df, who, key, expect_ids=None, debug=False):
        """who: for each individual of df in sorted order, its number in the base population"""
        mi = inputs(b.model, df)
        out = d = mi["debug_loglike"](params) if debug else mi["loglike"](params)
        known = [k for k, w in enumerate(who) if w is not None]
        res.close(out["contributions"][known], c0[[who[k] for k in known]], key)
        res.check(len(out["contributions"]) == len(who), key, f"{len(out['contributions'])} contributions for {len(who)} individuals")
        res.close(out["value"], out["contributions"].sum(), "value-is-sum")
        if debug:
            d = d["filtered_states"]
            for k in known:
                res.close(d[d["id"] == k][r.latent].to_numpy(), f0[who[k]], key + "-states")
        res.states += 1
        res.transitions += 1
        res.traces += len(known)

    def sub(ids):
        return full[full.index.get_level_values(0).isin(ids)]

    for n in range(3, N):
        for combo in itertools.combinations(range(N), n):
            compare(sub(combo), list(combo), f"subpopulation", debug=combo in ((0, 1, 2), (1, 3, 4)))
    # duplicates of one individual under new identifiers, before and after the originals
    dup = sub([2]).rename(index={2: -1}, level=0)
    dup2 = sub([2]).rename(index={2: 99}, level=0)
    compare(pd.concat([full, dup2, dup]), [2, 0, 1, 2, 3, 4, 2], "duplicates", debug=True)
    # all others replaced
    other = b.panel([{c: v + 1.5 for c, v in h.items()} for h in hists], ids=list(range(N)), salt="other")
    for i in range(N):
        mixed = pd.concat([other.drop(i, level=0), sub([i])])
        compare(mixed, [i if k == i else None for k in range(N)], "others-changed")
    # extreme and empty neighbours: nothing an individual's data do can reach the others
    far = {}
    for k, scale in enumerate((300.0, 300.5, 1e5, -1e5, None)):
        h = {c: (np.nan if scale is None else round((0.0 if v != v else v) * 0.1 + scale, 4)) for c, v in hists[k].items()}
        far[100 + k] = b.panel([h], ids=[100 + k], salt="far")
    crowd = pd.concat([full] + list(far.values()))
    compare(crowd, list(range(N)) + [None] * N, "extreme-neighbours", debug=True)
    c_far = inputs(b.model, crowd)["loglike"](params)["contributions"][N:]
    pairs = ((0, 1), (0, 1, 2, 3), (2, 3, 4), (0, 1, 4))
    for combo in pairs:
        got = inputs(b.model, pd.concat([far[100 + k] for k in combo]))["loglike"](params)["contributions"]
        res.close(got, c_far[list(combo)], "extreme-individuals", f"{combo}")
        res.states += 1
        res.traces += len(combo)
        res.transitions += 1
    res.close(c_far, r.loglike(as_dict(params), crowd)[0]["total"][N:], "extreme-contributions")
    # rows reversed / interleaved by period
    compare(full.iloc[::-1], list(range(N)), "row-order")
    compare(full.swaplevel().sort_index().swaplevel(), list(range(N)), "row-order", debug=True)
    # identifiers that sort differently
    for newids in ([30, 4, 100, 7, 0], ["d", "a", "e", "b", "c"], [3.5, -1.0, 2.0, 10.0, 0.5]):
        ren = full.rename(index=dict(enumerate(newids)), level=0)
        order = sorted(range(N), key=lambda k: newids[k])
        compare(ren, order, "relabelled", debug=True)
    res.saw(np.round(c0, 6))
    res.sample({"cfg": payload["label"], "contributions": c0})
