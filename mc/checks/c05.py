"""C05: each template row governs exactly the quantity that its label names."""
from mc import ref, specs

ID = "C05"
RULE = (
    "For every configuration the template's labels and lower bounds are compared with the documented set; a vector with a "
    "distinct value in every row is parsed and every parsed quantity compared; and each single row is changed, one at a "
    "time, on the real likelihood, whose contributions must follow the reference model in which only the labelled quantity "
    "changed. states = (configuration, row) pairs."
)
BOUNDS = {
    "quick": "labels+bounds+parsing: <=1 deviation from 4 bases, <=2 structural from minimal; row-by-row likelihood: every row of configurations with <=1 deviation in 6 dimensions from rich; the 8 special models",
    "thorough": "labels+bounds+parsing: <=2 deviations from 4 bases, <=3 structural deviations from 3 bases; row-by-row likelihood: every row of all configurations with <=1 deviation from 4 bases, <=2 structural deviations from minimal and rich",
}
ASSUMPTIONS = ["rows are compared as a set; their order is only required to be the gradient order (C06)"]


def cases(tier):
    S = specs
    st = ["nf", "T", "mix", "controls", "obs", "anch", "layout", "f0"]
    one = [S.explore(B, 1) for B in (S.MINIMAL, S.RICH, S.RICHLIN, S.PLAIN)]
    if tier == "quick":
        parse = S.union(*one, S.explore(S.MINIMAL, 2, ["nf", "T", "mix", "anch", "layout"]))
        rows = S.union(S.explore(S.RICH, 1, ["T", "mix", "anch", "obs", "layout", "f0"]), S.explore(S.MINIMAL, 1, ["nf", "anch", "f0"]), [{**S.RICH, "nf": 3, "anch": "20", "flags": "1111", "names": "rev"}])
        rows = [c for c in rows if c["layout"] not in ("one", "ints", "pername", "late")]
    else:
        parse = S.union(*[S.explore(B, 2) for B in (S.MINIMAL, S.RICH, S.RICHLIN, S.PLAIN)], *[S.explore(B, 3, ["nf", "T", "mix", "anch", "layout", "f0"]) for B in (S.MINIMAL, S.RICH, S.PLAIN)])
        rows = S.union(*one, S.explore(S.MINIMAL, 2, ["nf", "T", "mix", "anch"]), S.explore(S.RICH, 2, ["T", "mix", "anch", "obs", "f0"]))
    # bounds options
    extra = []
    for opts in ({"bounds_distance": 0.25}, {"robust_bounds": False}, {"robust_bounds": False, "bounds_distance": 0.25}, {"robust_bounds": True, "bounds_distance": 0}):
        extra += [{**B, "options": opts} for B in (S.MINIMAL, S.RICH)]
    out = [{"label": "parse " + S.label(c), "cfg": c, "mode": "parse"} for c in parse + extra + S.WIDE]
    rows = rows + S.WIDE[5:]
    out += [{"label": "rows " + S.label(c), "cfg": c, "mode": "rows"} for c in rows]
    return out


def run(payload, res):
    import numpy as np

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    hists = specs.histories(cells, 1)[:6] + [{c: specs.alt_value(*c) for c in cells}]
    df = b.panel(hists)
    mi = inputs(b.model, df)
    tpl = mi["params_template"]
    labels = list(tpl.index)
    want = r.labels()
    res.check(len(labels) == len(set(labels)), "duplicate-rows", "template has duplicate rows")
    miss, extra = set(want) - set(labels), set(labels) - set(want)
    ok = res.check(not miss and not extra, "labels", f"missing {sorted(map(str, miss))[:5]}, unexpected {sorted(map(str, extra))[:5]}")
    res.check(list(tpl.index.names) == ["category", "period", "name1", "name2"], "index-names", str(tpl.index.names))
    if not ok:
        return
    lb = r.lower_bounds()
    got = dict(zip(labels, tpl["lower_bound"].to_numpy(dtype=float)))
    bad = [k for k in lb if got[k] != lb[k]]
    res.check(not bad, "bounds", f"lower bounds differ, e.g. {bad[:3]}: {[(got[k], lb[k]) for k in bad[:3]]}")
    res.states += len(labels)
    res.transitions += len(labels)
    if payload["mode"] == "parse":
        check_parse(b, r, tpl.index, res)
        res.saw(labels)
        return
    params = params_for(r).reindex(tpl.index)
    meas, ctrl, obs, _ = r.arrays(df)
    ll = mi["loglike"]
    base = ll(params)["contributions"]
    v = as_dict(params)
    ref0 = r.filter(r.parse(v), meas, ctrl, obs)["total"]
    res.close(base, ref0, "contributions")
    moved = 0
    for i, lab in enumerate(labels):
        new = v[lab] * 1.13 + (0.05 if v[lab] >= 0 else -0.05)
        p2 = params.copy()
        p2.iloc[i, p2.columns.get_loc("value")] = new
        got = ll(p2)["contributions"]
        exp = r.filter(r.parse({**v, lab: new}), meas, ctrl, obs)["total"]
        res.close(got, exp, "row-effect", f"changing {lab}", row=str(lab))
        moved += int(not np.allclose(got, base, rtol=1e-12, atol=1e-12))
        res.traces += 1
    res.note("rows whose change moved the likelihood", moved)
    res.note("rows changed one at a time", len(labels))
    res.saw(np.round(base, 6))
    res.sample({"cfg": payload["label"], "rows": len(labels), "moved": moved})


def check_parse(b, r, index, res):
    import jax.numpy as jnp
    import numpy as np

    from skillmodels.parse_params import create_parsing_info, parse_params
    from skillmodels.process_model import process_model

    model = process_model(b.model)
    values = np.arange(1, len(index) + 1) * 0.01 + 0.5
    v = dict(zip(list(index), values))
    P = r.parse(v)
    info = create_parsing_info(index, model["update_info"], model["labels"], model["anchoring"])
    states, chols, logw, pd_ = parse_params(
        params=jnp.array(values), parsing_info=info, dimensions=model["dimensions"], labels=model["labels"], n_obs=2
    )
    L, M = len(r.latent), r.M
    res.close(states, np.broadcast_to(P["means"], (2, M, L)), "parse-means", rtol=1e-12)
    cov = np.einsum("nkji,nkjl->nkil", chols, chols)
    res.close(cov, np.broadcast_to(P["covs"], (2, M, L, L)), "parse-covs", rtol=1e-9)
    res.close(np.tril(np.array(chols), -1), np.zeros((2, M, L, L)), "parse-chol-upper")
    res.close(np.exp(logw), np.broadcast_to(P["weights"], (2, M)), "parse-weights", rtol=1e-12)
    res.close(pd_["loadings"], P["loadings"], "parse-loadings", rtol=1e-12)
    res.close(pd_["controls"], P["controls"], "parse-controls", rtol=1e-12)
    res.close(pd_["meas_sds"], P["meas_sds"], "parse-meas-sds", rtol=1e-12)
    res.close(pd_["shock_sds"], P["shock_sds"], "parse-shock-sds", rtol=1e-12)
    for f in r.latent if r.T > 1 else []:
        want = np.array([list(P["trans"][t][f].values()) for t in range(r.T - 1)]).reshape(r.T - 1, len(r.trans_names[f]))
        res.close(pd_["transition"][f], want, "parse-transition", f"factor {f}", rtol=1e-12)
    res.close(pd_["anchoring_scaling_factors"], P["scale"], "parse-scaling", rtol=1e-12)
    res.close(pd_["anchoring_constants"], P["const"], "parse-constants", rtol=1e-12)
    res.traces += 1
