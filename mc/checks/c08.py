"""C08: constraints encode exactly the restrictions implied by the specification."""
import itertools

from mc import ref, specs

ID = "C08"
RULE = (
    "For every configuration the returned constraint list is resolved on the index of the returned parameter template (label "
    "selection as done by the optimizer) and reduced to semantic sets: fixed (row, value), probability sets, equality classes "
    "(connected components), increasing chains, anything else. They must equal the sets derived from the specification. "
    "Enumerated: deviations from base configurations; all 16 combinations of anchoring flags x anchored factors x controls; "
    "all valid stagemaps up to 4 periods x transition functions; all normalizations of loadings and intercepts over a small "
    "alphabet in at most d of the (factor, period) cells, with lists of every length."
)
BOUNDS = {
    "quick": "<=1 deviation from 4 bases; flags x 6 anchorings x 2 controls; all stagemaps T<=4 x 10 pairs of functions; normalizations in <=2 cells (2 factors x 2 periods, 15 values per cell); the 8 special models",
    "thorough": "<=2 deviations from 4 bases; all stagemaps T<=5 x all pairs of functions x 2 mixtures; normalizations in <=3 cells",
}
ASSUMPTIONS = ["normalizations of a shared measurement do not contradict each other", "locations select rows like pandas .loc on the template"]


def cases(tier):
    S = specs
    d = 1 if tier == "quick" else 2
    cfgs = S.union(*[S.explore(B, d) for B in (S.MINIMAL, S.RICH, S.RICHLIN, S.PLAIN)])
    flags = ["".join(x) for x in itertools.product("01", repeat=4)]
    for anch, nf in (("0", 1), ("0", 2), ("1", 2), ("01", 2), ("10", 2), ("01same", 2)):
        for fl in flags:
            for con in (0, 2):
                cfgs.append({**S.MINIMAL, "nf": nf, "anch": anch, "flags": fl, "controls": con, "layout": "one"})
    funcs = S.BUILTIN + S.CUSTOM
    pairs = [(f, g) for f in funcs for g in funcs] if tier == "thorough" else [(f, funcs[(i + 3) % 10]) for i, f in enumerate(funcs)] + [("constant", "constant")]
    for T in range(2, 5 if tier == "quick" else 6):
        for sm in stagemaps(T - 1):
            for f, g in pairs:
                for mix in (1,) if tier == "quick" else (1, 2):
                    cfgs.append({**S.MINIMAL, "nf": 2, "T": T, "f0": f, "f1": g, "layout": "one", "stagemap": sm, "mix": mix})
    for obs in (0, 1):
        for mix in (1, 2, 3):
            for nm in ("abc", "rev"):
                cfgs.append({**S.MINIMAL, "nf": 2, "f0": "log_ces", "f1": "log_ces", "obs": obs, "mix": mix, "names": nm, "T": 3})
    cfgs += S.WIDE
    out, size = [], 40
    for i in range(0, len(cfgs), size):
        out.append({"label": f"configurations {i}..", "cfgs": cfgs[i : i + size]})
    norms = normalizations(2 if tier == "quick" else 3)
    for i in range(0, len(norms), size):
        out.append({"label": f"normalizations {i}..", "norms": norms[i : i + size]})
    return out


def stagemaps(n):
    out = [[0]] if n else [[]]
    for _ in range(n - 1):
        out = [s + [s[-1] + k] for s in out for k in (0, 1)]
    return out


LOADS = [{}, {"a": 1}, {"b": 2.5}, {"a": 1, "b": -0.5}, {"b": 1, "a": 3}]
INTS = [{}, {"a": 0}, {"a": 1.5, "b": 0}]
CELL = [(x, y) for x in LOADS for y in INTS]


def normalizations(d):
    cells = [(f, t) for f in range(2) for t in range(2)]
    out = []
    for n in range(d + 1):
        for combo in itertools.combinations(cells, n):
            for choice in itertools.product(range(1, len(CELL)), repeat=n):
                out.append([[f, t, k] for (f, t), k in zip(combo, choice)])
    return out


def run(payload, res):
    if "cfgs" in payload:
        for cfg in payload["cfgs"]:
            b = specs.build(cfg)
            if "stagemap" in cfg:
                b.model["stagemap"] = cfg["stagemap"]
            compare(b, res, specs.label(cfg))
    else:
        for n, spec in enumerate(payload["norms"]):
            b = specs.build({**specs.MINIMAL, "nf": 2, "layout": "std", "obs": n % 2})
            for f, name in enumerate(b.factors):
                loads, ints = [{}, {}], [{}, {}]
                for ff, t, k in spec:
                    if ff == f:
                        lo, it = CELL[k]
                        loads[t] = {f"y{f}{x}": v for x, v in lo.items()}
                        ints[t] = {f"y{f}{x}": v for x, v in it.items()}
                # lists may be shorter than the number of periods or absent
                norm = {}
                for key, lst in (("loadings", loads), ("intercepts", ints)):
                    if n % 3 != 1:
                        while lst and not lst[-1]:
                            lst.pop()
                    if lst or n % 3 == 0:
                        norm[key] = lst
                if norm or n % 2:
                    b.model["factors"][name]["normalizations"] = norm
            compare(b, res, f"normalizations {spec}")


def compare(b, res, label):
    import numpy as np

    from mc.common import inputs

    cells = b.cells()
    df = b.panel([{}, {c: specs.alt_value(*c) for c in cells}])
    mi = inputs(b.model, df)
    index = mi["params_template"].index
    got = canonical(mi["constraints"], index, res, label)
    want = expected(b)
    res.states += 1
    res.transitions += sum(len(v) for v in want.values())
    res.traces += 1
    if got is None:
        return
    for kind in want:
        g, w = got[kind], want[kind]
        if kind == "fixed":
            labs = sorted({str(x[0]) for x in g ^ w})
            res.check(g == w, f"{kind}", f"{label}: fixed rows differ; unexpected {sorted(map(str, g - w))[:4]}, missing {sorted(map(str, w - g))[:4]} ({len(labs)} rows)")
        else:
            res.check(g == w, f"{kind}", f"{label}: unexpected {sorted(map(str, g - w))[:3]}, missing {sorted(map(str, w - g))[:3]}")
    res.saw({k: sorted(map(str, v)) for k, v in want.items()})


def resolve(loc, index):
    import pandas as pd

    s = pd.Series(list(range(len(index))), index=index)
    sel = s.loc[loc]
    pos = [int(sel)] if not hasattr(sel, "to_numpy") else [int(x) for x in sel.to_numpy()]
    return [tuple(index[i]) for i in pos]


def canonical(constraints, index, res, label):
    import warnings

    out = {"fixed": set(), "probability": set(), "equal": set(), "increasing": set(), "other": set()}
    links = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for c in constraints:
            try:
                if "locs" in c:
                    locs = [resolve(x, index) for x in c["locs"]]
                else:
                    locs = resolve(c["loc"], index)
            except (KeyError, IndexError, TypeError, ValueError) as e:
                res.fail("location", f"{label}: {c.get('type')} constraint selects rows that are not in the template: {type(e).__name__} {str(e)[:200]}", constraint=str({k: v for k, v in c.items() if k != 'description'})[:300])
                return None
            t = c["type"]
            if t == "fixed":
                v = c["value"]
                if not isinstance(v, (list, tuple)) and not hasattr(v, "__len__"):
                    v = [v] * len(locs)
                if not res.check(len(v) == len(locs), "fixed-length", f"{label}: {len(v)} values for {len(locs)} rows"):
                    return None
                out["fixed"] |= {(lab, float(x)) for lab, x in zip(locs, v)}
            elif t == "probability":
                out["probability"].add(frozenset(locs))
            elif t == "equality":
                links.append(locs)
            elif t == "pairwise_equality":
                if not res.check(len({len(x) for x in locs}) == 1, "pairwise", f"{label}: unequal lengths"):
                    return None
                links += [list(z) for z in zip(*locs)]
            elif t == "increasing":
                out["increasing"].add(tuple(locs))
            elif t == "decreasing":
                out["increasing"].add(tuple(locs[::-1]))
            else:
                out["other"].add(str(t))
    # connected components
    comp = {}
    for group in links:
        merged = set(group)
        for lab in group:
            merged |= comp.get(lab, set())
        for lab in merged:
            comp[lab] = merged
    out["equal"] = {frozenset(x) for x in comp.values() if len(x) > 1}
    # fixed values that are written in one row per value must not contradict each other
    return out


def expected(b):
    m = b.model
    r = ref.Ref(m)
    fixed, prob, equal, inc = set(), set(), set(), set()
    for f in r.latent:
        norm = m["factors"][f].get("normalizations", {})
        for t, dct in enumerate(norm.get("loadings", [])):
            fixed |= {(("loadings", t, y, f), float(v)) for y, v in dct.items()}
        for t, dct in enumerate(norm.get("intercepts", [])):
            fixed |= {(("controls", t, y, "constant"), float(v)) for y, v in dct.items()}
    weights = [("mixture_weights", 0, f"mixture_{k}", "-") for k in range(r.M)]
    if r.M == 1:
        fixed.add((weights[0], 1.0))
    else:
        prob.add(frozenset(weights))
        inc.add(tuple(("initial_states", 0, f"mixture_{k}", r.latent[0]) for k in range(r.M)))
    sm = m.get("stagemap", list(range(r.T - 1)))
    for s in set(sm):
        per = [t for t, x in enumerate(sm) if x == s]
        if len(per) > 1:
            for f in r.latent:
                equal.add(frozenset(("shock_sds", t, f, "-") for t in per))
                for n in r.trans_names[f]:
                    equal.add(frozenset(("transition", t, f, n) for t in per))
    for f in r.latent:
        kind = m["factors"][f]["transition_function"]
        for t in range(r.T - 1):
            if kind == "constant":
                fixed.add((("shock_sds", t, f, "-"), 0.0))
            if kind == "log_ces":
                prob.add(frozenset(("transition", t, f, n) for n in r.allf))
    if r.anch:
        for t, n, _, facs, purpose in r.updates:
            if purpose != "anchoring":
                continue
            if not r.anch.get("free_constant", False):
                fixed.add((("controls", t, n, "constant"), 0.0))
            if not r.anch.get("free_controls", False):
                fixed |= {(("controls", t, n, c), 0.0) for c in r.controls[1:]}
            if not r.anch.get("free_loadings", False):
                fixed |= {(("loadings", t, n, f), 1.0) for f in facs}
    return {"fixed": fixed, "probability": prob, "equal": equal, "increasing": inc, "other": set()}
