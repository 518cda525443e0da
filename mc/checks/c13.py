"""C13: filtered states are posterior means; anchoring is affine and period specific."""
from mc import ref, specs

ID = "C13"
RULE = (
    "Every model configuration within a bounded number of deviations from several bases (in particular all anchoring "
    "outcomes x flags x mixtures x measurement layouts) x every measurement history with at most two deviating cells "
    "(other value or missing) x two parameter vectors.  get_filtered_states of the working tree is compared, "
    "individual by individual and period by period, with the mixture weighted posterior mean of the reference filter; "
    "anchored states with constant + loading * state of that factor and period; ranges with per period minima and maxima. "
    "The parameter frame is also passed in reversed row order with surplus rows."
)
BOUNDS = {
    "quick": "<=1 deviation from minimal, rich and richlin; <=2 from richlin in anchoring x flags x T x mix; histories with <=1 deviating cell plus all pairs for <=8 cells; the 8 special models",
    "thorough": "<=2 deviations from minimal, rich, richlin; all pairs of deviating cells",
}
ASSUMPTIONS = [
    "fixed generic data and parameters attached to labels (two vectors)",
    "periods without any measurement have no filtered states row (the repository's convention)",
    "the id column is the position of the individual in the sorted ids; panels use ids 0..n-1",
]
STRUCT = ["T", "mix", "anch", "flags"]


def configs(tier):
    S = specs
    if tier == "quick":
        return S.union(
            S.explore(S.MINIMAL, 1),
            S.explore(S.RICH, 1),
            S.explore(S.RICHLIN, 1),
            S.explore({**S.RICHLIN, "controls": 0, "obs": 0}, 2, STRUCT, only=lambda c: c["T"] < 4),
        )
    return S.union(
        S.explore(S.MINIMAL, 2),
        S.explore(S.RICH, 2),
        S.explore(S.RICHLIN, 2),
        S.explore({**S.RICHLIN, "controls": 0, "obs": 0, "nf": 3}, 3, STRUCT),
    )


def cases(tier):
    return [{"label": specs.label(c), "cfg": c, "tier": tier} for c in specs.union(configs(tier), specs.WIDE)]


def run(payload, res):
    import numpy as np
    import pandas as pd

    from mc.common import as_dict, params_for
    from skillmodels.filtered_states import get_filtered_states

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    hists = specs.histories(cells, 2 if payload["tier"] == "thorough" or len(cells) <= 8 else 1)
    if not any(all(h.get(c) == specs.alt_value(*c) for c in cells) for h in hists):
        hists = hists + [{c: specs.alt_value(*c) for c in cells}]
    df = b.panel(hists)
    s, e = specs.tree_size(cells, hists)
    res.states += s
    res.transitions += e
    meas, ctrl, obs, ids = r.arrays(df)
    L = len(r.latent)
    for variant in (0, 1):
        params = params_for(r, variant)
        P = r.parse(as_dict(params))
        want = r.filter(P, meas, ctrl, obs)["filtered"]
        if variant:
            extra = pd.DataFrame({"value": [99.0]}, index=pd.MultiIndex.from_tuples([("surplus", 0, "a", "b")], names=params.index.names))
            params = pd.concat([extra, params.iloc[::-1]])
        got = get_filtered_states(model_dict=b.model, data=df, params=params)
        for kind in ("unanchored_states", "anchored_states"):
            st = got[kind]["states"]
            rg = got[kind]["state_ranges"]
            res.check(
                sorted(st["period"].unique()) == sorted(want), f"{kind}:periods", f"{sorted(st['period'].unique())}, expected {sorted(want)}"
            )
            res.check(set(rg) >= set(r.latent), f"{kind}:range-factors", f"{sorted(rg)}")
            tab = st.set_index(["period", "id"])
            res.check(tab.index.is_unique and len(tab) == len(want) * len(hists), f"{kind}:rows", "one row per individual and period")
            for t, kept in want.items():
                target = kept
                if kind == "anchored_states":
                    target = P["const"][t, :L] + P["scale"][t, :L] * kept
                    if not np.allclose(target, kept):
                        res.note("anchored periods")
                sub = tab.loc[t].reindex(range(len(hists)))
                for j, f in enumerate(r.latent):
                    if not res.close(sub[f].to_numpy(), target[:, j], f"{kind}:values", f"{f}, period {t}, variant {variant}"):
                        return
                    if f in rg:
                        res.close(
                            [rg[f].loc[t, "minimum"], rg[f].loc[t, "maximum"]],
                            [target[:, j].min(), target[:, j].max()],
                            f"{kind}:ranges",
                            f"{f}, period {t}, variant {variant}",
                        )
            for f in r.latent:
                if f in rg:
                    res.check(list(rg[f].index) == sorted(want), f"{kind}:range-periods", f"{f}: {list(rg[f].index)}")
            res.saw(np.round(st[r.latent].to_numpy()[:8], 6))
        res.traces += 2 * len(hists)
    if not res.samples:
        t = max(want)
        res.sample({"cfg": payload["label"], "history": str(hists[1]), "period": t, "posterior mean": want[t][1].tolist()})
