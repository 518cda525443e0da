"""C02: missing measurements carry no information."""
import itertools

from mc import ref, specs

ID = "C02"
RULE = (
    "For each model configuration every pattern of missing cells (measurements and anchoring outcomes; all 2^n for up to "
    "9 cells, all patterns with <= k missing and <= k observed cells otherwise) is one individual of one panel. Checked on "
    "every individual and every update of the real debug and jitted likelihood: zero contribution and unchanged states and "
    "weights where missing, agreement with the reference filter, finite gradient, equality with a model from which the "
    "missing measurements were deleted (all deletions of <= d measurements), and with the panel from which the empty "
    "person-period rows were dropped, and (value and gradient) with the panel in which the controls of empty person-periods "
    "are missing as well."
)
BOUNDS = {
    "quick": "<=1 deviation from minimal/plain/rich in structural dimensions; full 2^n patterns for n<=9, else <=2 missing or <=2 observed; deletions of <=1 measurement (<=2 for the two smallest models)",
    "thorough": "<=2 deviations; full 2^n patterns for n<=11, else <=3; deletions of <=2 measurements",
}
ASSUMPTIONS = ["fixed generic data and parameters", "x64 CPU jax at XLA optimization level 0"]

DIMS = ["nf", "T", "f0", "f1", "mix", "controls", "obs", "anch", "layout", "scale"]
SMALL = ["nf", "T", "mix", "controls", "obs", "anch", "layout"]


def cases(tier):
    S = specs
    if tier == "quick":
        cfgs = S.union(S.explore(S.MINIMAL, 1, SMALL), S.explore(S.RICH, 1, SMALL), S.explore({**S.PLAIN, "layout": "one"}, 1, DIMS))
        dels = {S.label(c): 1 for c in S.union(S.explore(S.MINIMAL, 0), S.explore(S.RICH, 0), S.explore(S.RICHLIN, 0), S.explore({**S.PLAIN, "layout": "one", "f1": "log_ces"}, 0))}
        dels[S.label(S.MINIMAL)] = 2
        dels[S.label(S.normalize({**S.MINIMAL, "mix": 2}))] = 2
    else:
        cfgs = S.union(S.explore(S.MINIMAL, 2, SMALL), S.explore(S.RICH, 2, SMALL), S.explore({**S.PLAIN, "layout": "one"}, 2, DIMS))
        dels = {S.label(c): 1 for c in S.union(S.explore(S.MINIMAL, 1), S.explore(S.RICH, 1), S.explore(S.PLAIN, 1))}
        for c in S.union(S.explore(S.MINIMAL, 1, SMALL), S.explore(S.RICH, 0)):
            dels[S.label(c)] = 2
    out = []
    for c in cfgs:
        # the gradient takes most of the time; it is checked on all patterns of these models
        grad = tier == "thorough" or c["T"] == 2 or any(c[k] != v for k, v in (("mix", 2), ("anch", "0"), ("controls", 1), ("obs", 1)) if c["layout"] == "shared")
        out.append({"label": S.label(c), "cfg": c, "tier": tier, "mode": "patterns", "grad": grad})
    for c in cfgs:
        n = dels.get(S.label(c))
        if n:
            # custom functions need the package, which is not imported here; the cells do not depend on them
            b = S.build({**c, **{k: "linear" for k in ("f0", "f1", "f2") if str(c.get(k)).startswith("c_")}})
            meas = [cell for cell in b.cells() if not str(cell[1]).startswith("Q")]
            for k in range(1, n + 1):
                for combo in itertools.combinations(meas, k):
                    out.append({"label": S.label(c) + f" delete {combo}", "cfg": c, "mode": "delete", "drop": [list(x) for x in combo]})
    return out


def patterns(cells, tier):
    full, k = (9, 2) if tier == "quick" else (11, 3)
    if len(cells) <= full:
        return specs.full_patterns(cells)
    import numpy as np

    out = []
    for n in range(k + 1):
        for combo in itertools.combinations(cells, n):
            out.append({c: np.nan for c in combo})
    for n in range(k + 1):
        for combo in itertools.combinations(cells, n):
            out.append({c: np.nan for c in cells if c not in combo})
    return out


def run(payload, res):
    if payload["mode"] == "delete":
        return run_delete(payload, res)
    import numpy as np

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    pats = patterns(cells, payload["tier"])
    # one clone with other values, so that no measurement is without variance
    extra = {c: specs.alt_value(*c) for c in cells}
    hists = pats + [extra]
    df = b.panel(hists)
    s, e = specs.tree_size(cells, hists)
    res.states += s
    res.transitions += e
    mi = inputs(b.model, df)
    meas, ctrl, obs, ids = r.arrays(df)
    params = params_for(r)
    P = r.parse(as_dict(params))
    want = r.filter(P, meas, ctrl, obs)
    got = mi["loglike"](params)
    res.close(got["contributions"], want["total"], "contributions")
    if payload["grad"]:
        g = mi["gradient"](params)
        res.note("gradients")
        res.check(np.isfinite(g).all(), "gradient-finite", f"gradient has non-finite entries: {int((~np.isfinite(g)).sum())}")
    dbg = mi["debug_loglike"](params)
    n, M, L = len(hists), r.M, len(r.latent)
    U = len(r.updates)
    ac = dbg["all_contributions"]["contribution"].to_numpy().reshape(U, n)
    missing = ~np.isfinite(meas)
    res.check((ac[missing] == 0).all(), "nonzero-contribution", "a missing measurement contributed")
    res.close(ac, want["contribs"], "update-contributions")
    st = dbg["post_update_states"][r.latent].to_numpy().reshape(U, n, M, L)
    res.close(st, want["means"], "states")
    for u in range(1, U):
        if r.updates[u][0] == r.updates[u - 1][0]:
            m = missing[u]
            res.close(st[u][m], st[u - 1][m], "state-moved", f"update {u}", rtol=0, atol=0)
    fs = dbg["filtered_states"]
    for t, kept in want["filtered"].items():
        res.close(fs[fs["period"] == t][r.latent].to_numpy(), kept, "filtered", f"period {t}")
    res.traces += 2 * n
    # rows without any observation can as well be absent
    varis = b.variables()
    empty = df[varis].isnull().all(axis=1)
    if empty.any() and not b.observed:
        alive = (~empty).groupby(level=0).transform("any")
        df2 = df[~empty | ~alive]
        drop_first = df2.groupby(level=0).size()
        got2 = inputs(b.model, df2)["loglike"](params)
        res.close(got2["contributions"], got["contributions"], "absent-rows", f"{len(df) - len(df2)} rows dropped")
        res.traces += len(drop_first)
        res.transitions += 1
    # controls are not needed where nothing is observed
    if empty.any() and b.controls:
        df3 = df.copy()
        for x in b.controls:
            df3[x] = df3[x].where(~empty | (df.index.get_level_values(0) == df.index[-1][0]))
        mi3 = inputs(b.model, df3)
        if payload["grad"]:
            got3, g3 = mi3["loglike_and_gradient"](params)
            res.close(g3, g, "gradient-without-controls", "controls missing where nothing is observed", rtol=1e-6)
        else:
            got3 = mi3["loglike"](params)
        res.close(got3["contributions"], got["contributions"], "missing-controls", f"{int(empty.sum())} rows")
        res.traces += len(hists)
        res.transitions += 1
    res.saw(np.round(want["total"], 6)[:10])
    if not res.samples:
        res.sample({"cfg": payload["label"], "pattern": str(pats[1]), "contribution": float(got["contributions"][1])})


def run_delete(payload, res):
    import copy

    import numpy as np

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    drop = {tuple(x) for x in payload["drop"]}
    cells = b.cells()
    hists = [{}, {c: specs.alt_value(*c) for c in cells}]
    hists += [{**h, **{c: np.nan for c in drop}} for h in hists]
    df = b.panel(hists, ids=[0, 1, 2, 3])
    params = params_for(r)
    # same controls and observed factors for the individual with and without missings
    for x in b.controls + b.observed:
        v = df[x].to_numpy()
        v[2 * b.T :] = v[: 2 * b.T]
        df[x] = v
    full = inputs(b.model, df)["loglike"](params)["contributions"]
    model = copy.deepcopy(b.model)
    for spec in model["factors"].values():
        spec["measurements"] = [
            [m for m in per if (t, m) not in drop] for t, per in enumerate(spec["measurements"])
        ]
        for kind, lst in spec.get("normalizations", {}).items():
            spec["normalizations"][kind] = [
                {m: v for m, v in per.items() if (t, m) not in drop} for t, per in enumerate(lst)
            ]
    r2 = ref.Ref(model)
    red = inputs(model, df)["loglike"](params_for(r2))["contributions"]
    res.close(full[2:], red[:2], "deleted-measurement", f"missing vs deleted {sorted(drop)}")
    res.close(red[:2], red[2:], "deleted-measurement-still-used")
    res.close(full, r.loglike(as_dict(params), df)[0]["total"], "contributions")
    res.states += 2
    res.transitions += 1
    res.traces += 4
    res.saw(np.round(red, 6))
