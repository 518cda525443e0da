"""C10: missing controls only discard that person-period's measurements."""
import itertools

from mc import ref, specs

ID = "C10"
RULE = (
    "For every model all patterns of missing control cells over the periods are crossed with patterns of missing measurement "
    "cells (none, every single cell, every single period, everything); each combination is one individual of a panel. "
    "The arrays for estimation, the contributions of the real likelihood (against the reference in which exactly the "
    "measurements of affected person-periods are missing) and the person-periods named by the warning are compared. Small "
    "panels are explored one dataset at a time over all sets of person-periods with a missing control (warning iff needed, "
    "in the user's identifiers), for several labellings and unbalanced panels."
)
BOUNDS = {
    "quick": "10 models (<=2 controls, <=3 periods); all patterns of missing controls x (2 + cells + periods) patterns of measurements; all 2^6 sets of person-periods x 4 measurement patterns x 3 labellings",
    "thorough": "22 models; measurement patterns up to 2 missing cells; all 2^8 sets of person-periods x 6 measurement patterns x 4 labellings",
}
ASSUMPTIONS = ["an anchoring outcome counts as a measurement of its period", "no variable is both a measurement and an observed factor"]

M = {**specs.MINIMAL, "controls": 2}
MODELS = [
    M,
    {**M, "controls": 1, "T": 3, "obs": 1, "f0": "translog"},
    {**M, "nf": 2, "layout": "shared", "anch": "0"},
    {**M, "nf": 2, "layout": "late", "anch": "01", "obs": 2, "controls": 1, "T": 3},
    {**M, "mix": 2, "anch": "0", "layout": "one"},
    {**M, "controls": 1, "T": 3, "layout": "empty_mid"},
    {**M, "controls": 1, "T": 3, "layout": "empty_mid", "anch": "0"},
    {**M, "layout": "empty_first", "T": 2, "obs": 1},
    {**M, "nf": 2, "f1": "log_ces", "layout": "pername", "obs": 1},
    {**M, "nf": 2, "layout": "tuples", "names": "odd", "controls": 1},
]
MORE = [{**M, "layout": x} for x in ("ragged", "rev", "ints", "empty_last", "one")] + [
    {**M, "T": 3, "f0": f, "controls": 1, "obs": 1} for f in ("constant", "log_ces", "c_own", "c_states", "linear_and_squares", "robust_translog")
] + [{**M, "nf": 3, "layout": "shared", "anch": "20", "mix": 2, "obs": 1}, {**M, "nf": 2, "layout": "short", "anch": "1", "flags": "1111"}]

LABELS = {
    "ints": ([4, 7, 30], [1, 5]),
    "strings": (["a", "b 2", "zz"], ["t1", "t2"]),
    "mixed": (["10", "9", "x"], [2000, 2010]),
    "floats": ([0.5, 1.5, 9.25], [0, 1]),
}


def cases(tier):
    models = MODELS if tier == "quick" else MODELS + MORE
    out = [{"label": "panel " + specs.label(c), "mode": "panel", "cfg": c, "deep": tier == "thorough"} for c in models]
    for name in list(LABELS)[: 3 if tier == "quick" else 4]:
        for k in range(4 if tier == "quick" else 6):
            for obs in (0, 1):
                out.append({"label": f"warnings {name} {k} obs={obs}", "mode": "warn", "labels": name, "meas": k, "obs": obs})
    return out


def parse_tuples(text):
    import ast
    import re

    out = []
    for m in re.findall(r"\([^()]*\)", text):
        try:
            v = ast.literal_eval(m)
        except (ValueError, SyntaxError):
            continue
        if isinstance(v, tuple) and len(v) == 2:
            out.append(v)
    return out


def with_warnings(func, *args):
    import warnings

    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        out = func(*args)
    texts = [str(w.message) for w in rec if issubclass(w.category, UserWarning)]
    return out, [t for t in texts if "control" in t.lower()]


def run(payload, res):
    {"panel": run_panel, "warn": run_warn}[payload["mode"]](payload, res)


def arrays(b, r, df):
    """Reference arrays; affected person-periods."""
    import numpy as np

    meas, ctrl, obs, ids = r.arrays(df)
    per = [t for t, *_ in r.updates]
    affected = []
    for t in range(r.T):
        rows = [u for u, x in enumerate(per) if x == t]
        for j in range(len(ids)):
            if rows and np.isnan(ctrl[t, j]).any() and np.isfinite(meas[rows, j]).any():
                affected.append((ids[j], t))
                meas[rows, j] = np.nan
    return meas, ctrl, obs, ids, affected


def compare(b, r, df, res, label, names=None, loglike=True, proc=None):
    """df is indexed by (id, 0..T-1); names maps to the labels that the user sees."""
    import numpy as np
    import pandas as pd

    from mc.common import as_dict, inputs, params_for
    from skillmodels.process_data import process_data

    meas, ctrl, obs, ids, affected = arrays(b, r, df)
    user = df
    want = affected
    if names:
        user = df.copy()
        user.index = pd.MultiIndex.from_tuples([(names[0][i], names[1][t]) for i, t in df.index], names=["person", "wave"])
        want = [(names[0][i], names[1][t]) for i, t in affected]
    if proc is None:
        from skillmodels.process_model import process_model

        proc = process_model(b.model)
    got, texts = with_warnings(process_data, user, proc["labels"], proc["update_info"], proc["anchoring"])
    named = [x for t in texts for x in parse_tuples(t)]
    res.check(bool(texts) == bool(want), "warning", f"{label}: {len(texts)} warnings, affected {want[:5]}")
    res.check(sorted(set(named), key=str) == sorted(set(want), key=str) or set(named) == set(want), "warning-names", f"{label}: warning names {named[:6]}, affected are {want[:6]}")
    order = [[(t, n) for t, n, *_ in r.updates].index(tuple(k)) for k in proc["update_info"].index]
    res.close(got[0], meas[order], "measurements", label, rtol=0, atol=0)
    res.close(got[2], obs, "observed factors", label, rtol=0, atol=0)
    keep = np.ones(ctrl.shape[:2], bool)
    for i, t in affected:
        keep[t, ids.index(i)] = False
    keep &= ~np.isnan(ctrl).any(axis=2)
    res.close(np.array(got[1])[keep], ctrl[keep], "controls", label, rtol=0, atol=0)
    if loglike:
        p = params_for(r)
        mi, texts = with_warnings(inputs, b.model, user)
        named = [x for t in texts for x in parse_tuples(t)]
        res.check(set(named) == set(want), "warning-names-inputs", f"{label}: warning names {named[:6]}, affected are {want[:6]}")
        out = mi["loglike"](p)["contributions"]
        exp = r.filter(r.parse(as_dict(p)), meas, np.where(np.isnan(ctrl), 0.0, ctrl), obs)["total"]
        res.check(np.isfinite(out).all(), "finite", f"{label}: contributions are not finite")
        res.close(out, exp, "contributions", label)
        g = mi["gradient"](p)
        res.check(np.isfinite(g).all(), "gradient-finite", f"{label}: gradient is not finite")
    return want


def run_panel(payload, res):
    import numpy as np

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    ccells = [(t, x) for t in range(b.T) for x in b.controls]
    mpats = specs.histories(cells, 2 if payload["deep"] and len(cells) < 9 else 1, alphabet=("nan",))
    for t in range(b.T):
        mpats.append({c: np.nan for c in cells if c[0] == t})
        mpats.append({c: np.nan for c in cells if c[0] != t})
    mpats.append({c: np.nan for c in cells})
    seen, uniq = set(), []
    for m in mpats:
        if frozenset(m) not in seen:
            seen.add(frozenset(m))
            uniq.append(m)
    cpats = specs.full_patterns(ccells)
    hists, cmiss = [], []
    for cp in cpats:
        for m in uniq:
            hists.append(m)
            cmiss.append(cp)
    hists.append({c: specs.alt_value(*c) for c in cells})
    cmiss.append({})
    df = b.panel(hists)
    for i, cp in enumerate(cmiss):
        for t, x in cp:
            df.loc[(i, t), x] = np.nan
    want = compare(b, r, df, res, payload["label"])
    res.states += len(hists)
    res.transitions += sum(len(c) + len(m) for c, m in zip(cmiss, hists))
    res.traces += len(hists)
    res.note("person-periods with discarded measurements", len(want))
    res.saw([payload["label"], len(want)])
    res.sample({"model": payload["label"], "individuals": len(hists), "control patterns": len(cpats), "measurement patterns": len(uniq)})


def run_warn(payload, res):
    import numpy as np

    from skillmodels.process_model import process_model

    cfg = {**specs.MINIMAL, "controls": 2, "layout": "pername", "anch": "0", "obs": payload["obs"]}
    b = specs.build(cfg)
    r = ref.Ref(b.model)
    proc = process_model(b.model)
    cells = b.cells()
    n = 3
    names = LABELS[payload["labels"]]
    alt = [{}, {c: specs.alt_value(*c) for c in cells}, {c: specs.alt_value(*c) + 0.3 for c in cells}]
    pats = [
        {},
        {(i, c): np.nan for i in range(n) for c in cells if c[0] == i % 2},
        {(i, c): np.nan for i in range(n) for c in cells if c[1] != "Q0"},
        {(i, c): np.nan for i in range(n) for c in cells if c[1] == "Q0" or i == 1},
        {(0, c): np.nan for c in cells},
        {(i, c): np.nan for i in range(n) for c in cells if (i + len(str(c[1]))) % 2},
    ]
    pat = pats[payload["meas"]]
    hists = [{**alt[i], **{c: np.nan for (j, c) in pat if j == i}} for i in range(n)]
    base = b.panel(hists)
    keys = list(itertools.product(range(n), range(b.T)))
    for mask in range(2 ** len(keys)):
        df = base.copy()
        for k, (i, t) in enumerate(keys):
            if mask >> k & 1:
                df.loc[(i, t), b.controls[(i + t + mask) % 2]] = np.nan
        drop = None
        if mask % 5 == 3 and not b.observed:
            # an unbalanced panel
            drop = keys[mask % len(keys)]
            df = df.drop(index=[drop])
        ok = all(df[x].xs(t, level=1).notna().any() for x in b.controls for t in range(b.T))
        for t, v in cells:
            ok &= len(df[v].xs(t, level=1).dropna().unique()) != 1
        if not ok:
            res.note("datasets that the data check rejects")
            continue
        want = compare(b, r, df, res, f"{payload['label']} missing {[k for j, k in enumerate(keys) if mask >> j & 1]} without row {drop}", names, loglike=mask % 16 == 9, proc=proc)
        res.states += 1
        res.transitions += bin(mask).count("1")
        res.traces += 1
        res.saw([sorted(map(str, want))])
