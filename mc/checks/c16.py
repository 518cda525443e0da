"""C16: invalid specifications are rejected and valid ones accepted."""
import copy
import itertools
import re

from mc import specs

ID = "C16"
RULE = (
    "(a) every stagemap over a small alphabet (negative, fractional, too large stages) of every length up to periods + 1, for 1..5 "
    "periods; (b) every single edit and every pair of edits of a catalogue of valid and invalid entries at every site of a model "
    "(anchoring options, outcomes, measurement lists, normalization lists per factor, kind and period); (c) every single edit and "
    "every pair of edits of a dataset (dropped columns, empty/constant/incomplete cells per period and individual, absent rows, "
    "surplus columns).  A reference predicate written from the documentation decides validity of the edited object; rejection must be "
    "a ValueError; the report of a pair must contain the problems of both; data reports must name exactly the (period, variable) "
    "pairs of the predicate."
)
BOUNDS = {
    "quick": "stagemaps over {-1,0,1,2,0.5} up to 4 periods; all single and pairs of ~80 specification edits on 1 model, all singles on 2; data edits: all singles on 5 models, all pairs on 2",
    "thorough": "stagemaps over {-1,0,1,2,3,0.5} up to 5 periods; all pairs of edits on 2 models, triples of distinct kinds; data edits: all pairs on 5 models",
}
ASSUMPTIONS = [
    "stagemaps are lists of numbers and normalizations are dictionaries",
    "measurements without any observation in a period, anchoring outcomes without a column and controls of periods without measurements are not decided",
    "normalization lists are not longer than the number of periods unless they name a variable there",
]


# ------------------------------------------------------------------ specification edits


def base_model(which):
    m = {
        "factors": {
            "f1": {
                "measurements": [["a", "b"], ["a", "b"], ["a"]],
                "transition_function": "linear",
                "normalizations": {"loadings": [{"a": 1}, {"a": 1}, {"a": 1}], "intercepts": [{"a": 0}]},
            },
            "f2": {"measurements": [["c", "a"], ["c"]], "transition_function": "translog"},
        },
        "anchoring": {
            "outcomes": {"f1": "Q"},
            "free_controls": True,
            "free_constant": True,
            "free_loadings": True,
            "ignore_constant_when_anchoring": False,
        },
        "controls": ["x"],
        "stagemap": [0, 0],
    }
    if which == 1:
        m["factors"]["f3"] = {"measurements": [[], ["d", 7], []], "transition_function": "constant", "normalizations": {"loadings": [{}, {"d": 2}]}}
        m["observed_factors"] = ["o"]
        m["stagemap"] = [0, 1]
        m["anchoring"]["outcomes"] = {"f2": "Q", "f1": "Q"}
    return m


def spec_edits(which, deep=False):
    """(path, value) pairs."""
    out = []
    A = "anchoring"
    for v in (None, 5, "Q", ["f1"], ["f1", "f2"], {}, {"f1": 1.5}, {"f1": None}, {"f1": ["Q"]}, {"f1": "R"}, {"f1": 3}, {"f2": "Q", "f1": None}):
        out.append(((A, "outcomes"), v))
    for opt in ("free_controls", "free_constant", "free_loadings", "ignore_constant_when_anchoring"):
        for v in (True, False, None, 0, 1, "yes", []):
            out.append(((A, opt), v))
    m = base_model(which)
    for f in m["factors"]:
        meas = m["factors"][f]["measurements"]
        path = ("factors", f, "measurements")
        for v in (None, 5, "abc", {"a": 1}):
            out.append((path, v))
        for t in range(len(meas)):
            for v in (None, "a", 3, {"a": 1}):
                out.append((path + (t,), v))
            for v in (1.5, None, ["x"], {}, 9, "z"):
                out.append((path + (t,), meas[t] + [v]))
        for kind in ("loadings", "intercepts"):
            path = ("factors", f, "normalizations", kind)
            for v in (None, 5, "a", {"a": 1}, [None], [{}, ["a"]]):
                out.append((path, v))
            for t in range(3):
                for var in ("a", "c", "z", "Q"):
                    for val in (1, 0) if var == "a" else (1,):
                        out.append((path, [{}] * t + [{var: val}]))
            out.append((path, [{}, {}, {}, {"a": 1}]))
            out.append((path, [{"a": 0.0}]))
            out.append((path, [{"a": -2.5}]))
            out.append((path, []))
    for sm in ([0, 0], [0, 1], [1, 1], [0, 2], [1, 0], [0], [0, 0, 1], []):
        out.append((("stagemap",), sm))
    return out


def apply(model, edits):
    m = copy.deepcopy(model)
    for path, v in edits:
        d = m
        for k in path[:-1]:
            if isinstance(d, dict) and k not in d:
                d[k] = {}
            d = d[k]
        d[path[-1]] = copy.deepcopy(v)
    return m


def problems(m):
    """Categories of problems of a model specification; empty iff it is valid."""
    out = set()
    periods = [len(f["measurements"]) for f in m["factors"].values() if isinstance(f["measurements"], list)]
    T = max(periods) if periods else None
    sm = m.get("stagemap")
    if sm is not None and T is not None:
        out |= stagemap_problems(sm, T)
    a = m.get("anchoring")
    if a is not None:
        if not isinstance(a["outcomes"], dict):
            out.add("outcomes")
        elif not all(isinstance(v, (str, int, tuple)) for v in a["outcomes"].values()):
            out.add("outcome-name")
        for k in ("free_controls", "free_constant", "free_loadings", "ignore_constant_when_anchoring"):
            if not isinstance(a.get(k, False), bool):
                out.add(k)
    for f, s in m["factors"].items():
        meas = s["measurements"]
        if not isinstance(meas, list) or not all(isinstance(p, list) for p in meas):
            out.add(f"measurements {f}")
            meas = None
        elif not all(isinstance(v, (str, int, tuple)) for p in meas for v in p):
            out.add(f"names {f}")
        for kind in ("loadings", "intercepts"):
            lst = s.get("normalizations", {}).get(kind, [])
            if not isinstance(lst, list) or not all(isinstance(d, dict) for d in lst):
                out.add(f"{kind} {f}")
                continue
            for t, d in enumerate(lst):
                for var, val in d.items():
                    if meas is not None and (t >= len(meas) or not any(same(var, x) for x in meas[t])):
                        out.add(f"{kind} {f} {t} {var}")
                    if kind == "loadings" and val == 0:
                        out.add(f"zero {f} {t} {var}")
    return out


def same(a, b):
    return type(a) is type(b) and a == b


def stagemap_problems(sm, T):
    out = set()
    if len(sm) != T - 1:
        out.add("stagemap length")
    if len(sm) and sm[0] != 0:
        out.add("stagemap start")
    if any(b - a not in (0, 1) for a, b in zip(sm, sm[1:])):
        out.add("stagemap steps")
    return out


# ------------------------------------------------------------------ data edits

M = {**specs.MINIMAL, "controls": 1}
DATA_MODELS = [
    {**M, "nf": 2, "layout": "shared", "obs": 1, "anch": "0", "controls": 2},
    {**M, "nf": 2, "layout": "pername", "T": 3, "obs": 2, "anch": "01"},
    {**M, "layout": "ragged", "T": 3, "nf": 2},
    {**M, "obs": 1, "T": 1},
    {**M, "nf": 2, "layout": "late", "T": 3, "obs": 1, "mix": 2, "anch": "01same"},
]


def data_edits(b):
    out = []
    needed = sorted({(t, v) for t, v in b.cells() if v not in b.outcomes.values()}, key=str)
    for v in sorted({v for _, v in needed}):
        out.append(["drop", v])
    for t, v in sorted(b.cells(), key=str):
        out.append(["const", t, v])
    for t, v in needed:
        out.append(["constnan", t, v])
        out.append(["nan", t, v, 1])
    for x in b.controls:
        out.append(["drop", x])
        for t in range(b.T):
            out.append(["empty", t, x])
            out.append(["nan", t, x, 0])
            out.append(["const", t, x])
    for x in b.observed:
        out.append(["drop", x])
        for t in range(b.T):
            out.append(["empty", t, x])
            out.append(["const", t, x])
            for i in (0, 3):
                out.append(["nan", t, x, i])
    for i in (0, 3):
        for t in range(1, b.T):
            out.append(["row", t, i])
    out.append(["surplus"])
    return out


def apply_data(df, edits):
    import numpy as np

    df = df.copy()
    rows = []
    for e in edits:
        kind = e[0]
        if kind == "surplus":
            df["unused"] = 1.0
            df["unused2"] = np.nan
            continue
        if kind == "drop":
            df = df.drop(columns=[e[1]], errors="ignore")
            continue
        if kind == "row":
            rows.append((e[2], e[1]))
            continue
        t, v = e[1], e[2]
        if v not in df.columns:
            continue
        at = df.index.get_level_values(1) == t
        if kind == "empty":
            df.loc[at, v] = np.nan
        elif kind in ("const", "constnan"):
            df.loc[at, v] = 0.25
            if kind == "constnan":
                df.loc[(0, t), v] = np.nan
        elif kind == "nan":
            df.loc[(e[3], t), v] = np.nan
    return df.drop(index=[r for r in rows if r in df.index])


def data_problems(b, df, simulation=False):
    """(period, variable) pairs that make the data invalid; None if not decided."""
    out = set()
    ids = sorted(set(df.index.get_level_values(0)))
    cells = b.cells()
    for t in range(b.T):
        sub = df[df.index.get_level_values(1) == t].reset_index(level=1, drop=True).reindex(ids)
        has_meas = any(s == t for s, _ in cells)
        for x in b.controls:
            if x not in df.columns or sub[x].isnull().all():
                if not has_meas:
                    return None
                out.add((t, x))
        for x in b.observed:
            if x not in df.columns or sub[x].isnull().any():
                out.add((t, x))
        if simulation:
            continue
        names = {v: [v] for s, v in cells if s == t}
        for f, o in b.outcomes.items():
            names[o] = [n for n in names.get(o, []) if n != o] + [f"{o}_{f}"]
        for v, labels in names.items():
            if v not in df.columns:
                if v in b.outcomes.values():
                    return None
                bad = True
            else:
                n = sub[v].dropna().nunique()
                if n == 0:
                    return None
                bad = n == 1
            if bad:
                out |= {(t, lab) for lab in labels}
    return out


def parse_report(text):
    """(period, variable) pairs named in a report with one line per problem."""
    out, period = set(), None
    for line in text.splitlines():
        m = re.match(r"^\s*(?:(\d+)\s+)?(\S+)\s+Variable ", line)
        if m:
            period = int(m.group(1)) if m.group(1) is not None else period
            out.add((period, m.group(2)))
    return out


# ------------------------------------------------------------------ cases


def chunks(lst, n):
    return [lst[i : i + n] for i in range(0, len(lst), n)]


def cases(tier):
    out = []
    alphabet, maxT = ([-1, 0, 1, 2, 0.5], 4) if tier == "quick" else ([-1, 0, 1, 2, 3, 0.5], 5)
    for T in range(1, maxT + 1):
        out.append({"label": f"stagemaps T={T}", "mode": "stage", "T": T, "alphabet": alphabet})
    for which in (0, 1):
        n = len(spec_edits(which))
        out.append({"label": f"spec singles {which}", "mode": "spec", "which": which, "sets": [[]] + [[i] for i in range(n)]})
        if which == 0 or tier == "thorough":
            pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
            out += [{"label": f"spec pairs {which} #{k}", "mode": "spec", "which": which, "sets": c} for k, c in enumerate(chunks(pairs, 600))]
    for k, c in enumerate(DATA_MODELS):
        b = specs.build(c)
        n = len(data_edits(b))
        out.append({"label": f"data singles {k}", "mode": "data", "cfg": c, "sets": [[]] + [[i] for i in range(n)], "sim": True})
        if tier == "thorough" or k in (0, 2):
            pairs = [[i, j] for i in range(n) for j in range(i + 1, n)]
            out += [{"label": f"data pairs {k} #{q}", "mode": "data", "cfg": c, "sets": s, "sim": False} for q, s in enumerate(chunks(pairs, 120))]
    return out


def attempt(func, *args, **kwargs):
    """('ok', None), ('ValueError', text) or (other exception name, text)."""
    try:
        func(*args, **kwargs)
    except ValueError as e:
        # subclasses like UnicodeError or LinAlgError are not reports
        return ("ValueError" if type(e) is ValueError else type(e).__name__), str(e)
    except Exception as e:  # noqa: BLE001
        return type(e).__name__, str(e)
    return "ok", None


def run(payload, res):
    {"stage": run_stage, "spec": run_spec, "data": run_data}[payload["mode"]](payload, res)


def run_stage(payload, res):
    from skillmodels.process_model import process_model

    T = payload["T"]
    for n in range(T + 2):
        for sm in itertools.product(payload["alphabet"], repeat=n):
            model = {"factors": {"f": {"measurements": [["a", "b"]] * T, "transition_function": "linear"}}, "stagemap": list(sm)}
            bad = stagemap_problems(list(sm), T)
            got, text = attempt(process_model, model)
            res.states += 1
            res.transitions += 1
            res.traces += 1
            if bad:
                if res.check(got == "ValueError", "stagemap-accepted", f"stagemap {list(sm)} with {T} periods: {got} {text}, problems {sorted(bad)}"):
                    res.check("stage" in text.lower(), "stagemap-report", f"{list(sm)}: report does not mention stages: {text}")
            else:
                res.check(got == "ok", "stagemap-rejected", f"stagemap {list(sm)} with {T} periods: {got} {text}")
                res.note("valid stagemaps")
            res.saw([got, sorted(bad)])
    res.sample({"case": payload["label"], "last": list(sm), "result": got})


def lines(text):
    return {x.strip() for x in text.splitlines() if x.strip()}


def run_spec(payload, res):
    from skillmodels.process_model import process_model

    model = base_model(payload["which"])
    edits = spec_edits(payload["which"])
    cache = {}

    def outcome(ids):
        if ids not in cache:
            m = apply(model, [edits[i] for i in ids])
            cache[ids] = (problems(m), *attempt(process_model, m))
        return cache[ids]

    for ids in payload["sets"]:
        ids = tuple(ids)
        paths = [edits[i][0] for i in ids]
        if len(ids) == 2:
            a, b = paths
            if a[: len(b)] == b or b[: len(a)] == a:
                continue  # one edit overwrites the other
        bad, got, text = outcome(ids)
        desc = [(".".join(map(str, edits[i][0])), edits[i][1]) for i in ids]
        res.states += 1
        res.transitions += max(1, len(ids))
        res.traces += 1
        if bad:
            if not res.check(got == "ValueError", f"accepted:{sorted(bad)[0].split()[0]}", f"{desc}: {got} {text}; problems {sorted(bad)}"):
                continue
            if len(ids) == 2:
                for i in ids:
                    b1, g1, t1 = outcome((i,))
                    # every problem of one edit that is still a problem is still reported
                    if g1 == "ValueError" and b1 and b1 <= bad:
                        miss = [x for x in lines(t1) if x not in lines(text) and not re.search(r"length|n_periods", x)]
                        res.check(not miss, "report-incomplete", f"{desc}: not reported: {miss}; report {text}")
                        res.note("pairs whose reports are compared")
        else:
            res.check(got == "ok", "rejected", f"{desc}: {got} {text}")
            res.note("valid specifications")
        res.saw([got, sorted(bad)])
    if ids:
        res.sample({"case": payload["label"], "edits": str(desc), "problems": sorted(bad), "result": got})


def run_data(payload, res):
    from mc import ref
    from mc.common import params_for
    from skillmodels import get_maximization_inputs
    from skillmodels.simulate_data import simulate_dataset

    b = specs.build(payload["cfg"])
    full = {c: specs.alt_value(*c) for c in b.cells()}
    base = b.panel([{}, full, {}, full])
    edits = data_edits(b)
    params = params_for(ref.Ref(b.model)) if payload["sim"] else None
    for ids in payload["sets"]:
        df = apply_data(base, [edits[i] for i in ids])
        desc = [edits[i] for i in ids]
        bad = data_problems(b, df)
        res.states += 1
        res.transitions += max(1, len(ids))
        if bad is not None:
            got, text = attempt(get_maximization_inputs, b.model, df)
            res.traces += 1
            verdict(res, bad, got, text, desc, "")
            res.saw([got, sorted(bad, key=str)])
        else:
            res.note("not decided")
        if payload["sim"]:
            bad = data_problems(b, df, simulation=True)
            if bad is not None and all(o in df.columns for o in b.outcomes.values()):
                got, text = attempt(simulate_dataset, b.model, params, data=df)
                if not bad and any(e[0] == "row" or e[0] == "drop" for e in desc) or any(e[0] == "nan" and e[2] in b.controls for e in desc):
                    continue  # simulation needs complete controls and all columns
                res.traces += 1
                verdict(res, bad, got, text, desc, "simulation:")
    if payload["sets"][-1]:
        res.sample({"case": payload["label"], "edits": str(desc), "result": got, "report": text})


def verdict(res, bad, got, text, desc, where):
    if bad:
        if res.check(got == "ValueError", f"{where}data-accepted", f"{desc}: {got} {text}; invalid {sorted(bad)}"):
            named = parse_report(text)
            res.check(named == bad, f"{where}data-report", f"{desc}: report names {sorted(named, key=str)}, invalid {sorted(bad)}: {text}")
    else:
        res.check(got == "ok", f"{where}data-rejected", f"{desc}: {got} {text}")
