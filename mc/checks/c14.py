"""C14: debug output is labelled correctly."""
from mc import ref, specs

ID = "C14"
RULE = (
    "Every model configuration within a bounded number of deviations from several bases x every measurement history "
    "with a bounded number of deviating cells (other value or missing) x two parameter vectors.  Every row of every tidy "
    "debug frame is looked up by its own labels (id, mixture, period, measurement) in the trace of the reference filter, "
    "which is keyed by the same labels; the set of labels must be exactly the set of (update x individual [x component])."
)
BOUNDS = {
    "quick": "<=1 deviation from minimal, rich and richlin, <=2 in mix x layout x anchoring x T from plain; histories with <=1 deviating cell plus all pairs for <=8 cells; the 8 special models",
    "thorough": "<=2 deviations from minimal, rich, richlin; <=3 in mix x layout x anchoring x T from plain; all pairs of deviating cells",
}
ASSUMPTIONS = [
    "fixed generic data and parameters attached to labels (two vectors)",
    "the id column is the position of the individual in the sorted ids; panels use ids 0..n-1",
]
STRUCT = ["mix", "layout", "anch", "T"]


def configs(tier):
    S = specs
    if tier == "quick":
        return S.union(
            S.explore(S.MINIMAL, 1),
            S.explore(S.RICH, 1),
            S.explore(S.RICHLIN, 1),
            S.explore(S.PLAIN, 2, STRUCT, only=lambda c: c["T"] < 4 and c["mix"] > 1),
        )
    return S.union(S.explore(S.MINIMAL, 2), S.explore(S.RICH, 2), S.explore(S.RICHLIN, 2), S.explore(S.PLAIN, 3, STRUCT))


def cases(tier):
    return [{"label": specs.label(c), "cfg": c, "tier": tier} for c in specs.union(configs(tier), specs.WIDE)]


def run(payload, res):
    import numpy as np

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    hists = specs.histories(cells, 2 if payload["tier"] == "thorough" or len(cells) <= 8 else 1)
    hists = hists + [{c: specs.alt_value(*c) for c in cells}]
    n = len(hists)
    df = b.panel(hists)
    s, e = specs.tree_size(cells, hists)
    res.states += s
    res.transitions += e
    meas, ctrl, obs, ids = r.arrays(df)
    mi = inputs(b.model, df)
    missing = ~np.isfinite(meas)
    upd = [(t, name) for t, name, *_ in r.updates]
    pos = {k: u for u, k in enumerate(upd)}
    for variant in (0, 1):
        params = params_for(r, variant)
        P = r.parse(as_dict(params))
        want = r.filter(P, meas, ctrl, obs)
        dbg = mi["debug_loglike"](params)

        def lookup(frame, name, column, mixture):
            """Array (U, n[, M]) of the values of a column, addressed by the row labels."""
            shape = (len(upd), n, r.M) if mixture else (len(upd), n)
            out, count = np.full(shape, np.nan), np.zeros(shape, dtype=int)
            cols = ["period", "measurement", "id"] + (["mixture"] if mixture else [])
            if not res.check(set(cols) <= set(frame.columns), f"{name}:columns", f"{list(frame.columns)}"):
                return None
            vals = frame[column].to_numpy(dtype=float)
            for lab, v in zip(zip(*[frame[c].tolist() for c in cols]), vals):
                k = pos.get((lab[0], lab[1]))
                ok = k is not None and 0 <= lab[2] < n and (not mixture or 0 <= lab[3] < r.M)
                if not res.check(ok, f"{name}:label", f"row labelled {lab} belongs to no update"):
                    return None
                where = (k,) + tuple(lab[2:])
                out[where] = v
                count[where] += 1
            if not res.check((count == 1).all(), f"{name}:rows", f"{int((count == 0).sum())} labels missing, {int((count > 1).sum())} repeated"):
                return None
            return out

        for j, f in enumerate(r.latent):
            got = lookup(dbg["post_update_states"], "post_update_states", f, True)
            if got is not None:
                res.close(got, want["means"][..., j], "post_update_states:values", f"{f}, variant {variant}")
        for name, key in (("residuals", "resid"), ("residual_sds", "sds")):
            got = lookup(dbg[name], name, "residual", True)
            if got is not None:
                target = want[key]
                res.close(got[~missing], target[~missing], f"{name}:values", f"variant {variant}")
                gone = got[missing]
                res.check(
                    (np.isnan(gone) | (gone == 0)).all(), f"{name}:missing", f"value {gone[~np.isnan(gone)][:3]} for an unobserved measurement"
                )
        got = lookup(dbg["all_contributions"], "all_contributions", "contribution", False)
        if got is not None:
            res.close(got, want["contribs"], "all_contributions:values", f"variant {variant}")
            res.check((got[missing] == 0).all(), "all_contributions:missing", "contribution of an unobserved measurement")
            res.close(got.sum(axis=0), want["total"], "contributions-sum", f"variant {variant}")
            for src, out in (("debug", dbg), ("loglike", mi["loglike"](params))):
                res.close(out["contributions"], got.sum(axis=0), f"{src}:contributions")
                res.close(out["value"], got.sum(), f"{src}:value")
        res.traces += n
        res.saw([np.round(want["resid"][:, :3], 6), np.round(want["total"][:3], 6)])
    if not res.samples:
        res.sample({"cfg": payload["label"], "history": str(hists[1]), "update": str(upd[-1]), "posterior means": want["means"][-1, 1].tolist()})
