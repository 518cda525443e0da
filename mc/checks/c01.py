"""C01: likelihood contributions are the density implied by the model."""
from mc import ref, specs

ID = "C01"
RULE = (
    "Every model configuration within a bounded number of deviations from several base models "
    "(factors, periods, transition functions, mixtures, controls, observed factors, anchoring, flags, "
    "measurement layouts incl. periods without measurements, sigma point scale, names) x every measurement "
    "history with at most two cells deviating (other value or missing) from a base history x two parameter "
    "vectors; states/transitions = nodes/edges of the observation-history trees; every history is replayed on "
    "the jitted likelihood of the working tree and compared with the reference filter and, for models with "
    "linear/constant transitions, with the exact joint normal density."
)
BOUNDS = {
    "quick": "<=1 deviation from 4 bases, <=2 from the minimal and plain base in the structural dimensions; 8 special models (more than 9 periods, factors, components, controls; quotes, hyphens and tuples as names); histories with <=2 deviating cells",
    "thorough": "<=2 deviations from all bases (all dimensions), <=3 from the minimal base in structural dimensions; histories with <=2 deviating cells, <=3 on small models",
}
ASSUMPTIONS = [
    "x64 CPU jax, compiled at XLA optimization level 0",
    "parameters and data are fixed generic values attached to labels (two vectors)",
    "the square root used for sigma points is the lower Cholesky factor (up to column signs)",
]

STRUCT = ["nf", "T", "f0", "f1", "mix", "controls", "obs", "anch", "layout"]


def configs(tier):
    S = specs
    if tier == "quick":
        return S.union(
            S.explore(S.MINIMAL, 1),
            S.explore(S.RICH, 1),
            S.explore(S.RICHLIN, 1),
            S.explore(S.PLAIN, 1),
            S.explore(S.MINIMAL, 2, ["nf", "T", "mix", "controls", "obs", "anch", "layout"]),
        )
    return S.union(
        S.explore(S.MINIMAL, 2),
        S.explore(S.RICH, 2),
        S.explore(S.RICHLIN, 2),
        S.explore(S.PLAIN, 2),
        S.explore(S.MINIMAL, 3, ["nf", "T", "mix", "obs", "anch", "layout"]),
    )


def cases(tier):
    out = []
    for c in specs.union(configs(tier), specs.WIDE):
        out.append({"label": specs.label(c), "cfg": c, "tier": tier})
    return out


def run(payload, res):
    import numpy as np

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    d = 2
    if payload["tier"] == "thorough" and len(cells) <= 8:
        d = 3
    hists = specs.histories(cells, d)
    df = b.panel(hists)
    s, e = specs.tree_size(cells, hists)
    res.states += s
    res.transitions += e
    mi = inputs(b.model, df)
    meas, ctrl, obs, ids = r.arrays(df)
    template = mi["params_template"].index
    for variant in (0, 1):
        params = params_for(r, variant)
        params = params.reindex(template) if set(params.index) == set(template) else specs.make_params(template, variant)
        got = mi["loglike"](params)
        P = r.parse(as_dict(params))
        want = r.filter(P, meas, ctrl, obs)
        # contributions are lower-clipped at -1e250, which leaves them unchanged
        if not res.close(got["contributions"], want["total"], "contributions", f"variant {variant}"):
            return
        res.close(got["value"], want["total"].sum(), "value", f"variant {variant}")
        res.traces += len(hists)
        if r.is_linear():
            k = min(len(hists), 60)
            ex = r.exact_total(P, meas[:, :k], ctrl[:, :k], obs[:, :k])
            res.close(got["contributions"][:k], ex, "exact-density", f"variant {variant}")
            res.note("histories compared with exact density", k)
        else:
            res.note("nonlinear specs")
        res.saw(np.round(want["total"][:5], 6))
    if not res.samples and len(hists) > 3:
        res.sample({"cfg": payload["label"], "history": str(hists[3]), "contribution": float(got["contributions"][3])})
