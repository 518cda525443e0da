"""C11: model-editing functions keep specification and parameters consistent."""
import copy
import itertools

from mc import ref, specs

ID = "C11"
RULE = (
    "Explicit-state breadth-first search over model specifications: a state is a model dictionary (with the values of its "
    "parameter frame), an action is one call of extract_factors, remove_factors, remove_measurements, remove_controls, "
    "reduce_n_periods or one of the translog/linear switches with every argument from the alphabet of the state (each name, "
    "pairs, unknown names, string or list spelling). The abstract effect of the action is computed by an independent edit of "
    "the dictionary and of a label -> value map; on every edge the real function is called with and without params and "
    "compared (dictionary, index = template of the new model in order, surviving rows in every column, fill values), "
    "applied a second time (idempotence), and its inputs are compared with deep copies. update_parameter_values is explored "
    "over all sequences of at most three overlapping frames."
)
BOUNDS = {
    "quick": "9 start models, all edit sequences of length 2 (length 3 from 2 models)",
    "thorough": "all edit sequences of length 3 from 10 start models (length 4 from 2 models)",
}
ASSUMPTIONS = ["edits leave at least one factor and one measurement", "custom transition functions only depend on their own factor or on the state vector"]

M, R = specs.MINIMAL, specs.RICH
STARTS = [
    ({**M, "norm": "first"}, 3),
    ({**M, "nf": 2, "T": 2, "f0": "translog", "layout": "shared", "anch": "1", "norm": "both", "controls": 1}, 3),
    ({**R, "layout": "short", "anch": "10", "stages": "two", "norm": "both", "names": "rev"}, 2),
    ({**R, "nf": 3, "f0": "log_ces", "f2": "linear", "layout": "late", "anch": "02", "controls": 2, "obs": 2, "names": "sub"}, 2),
    ({**R, "T": 4, "f1": "linear", "layout": "mid_shared", "stages": "one", "norm": "odd", "anch": "none"}, 2),
    ({**R, "nf": 3, "f0": "c_own", "f1": "constant", "f2": "translog", "layout": "ragged", "anch": "20", "flags": "0001", "norm": "none"}, 2),
    ({**R, "nf": 3, "T": 2, "layout": "pername", "names": "sub", "f0": "linear", "f1": "translog", "anch": "12", "controls": 2, "mix": 1}, 2),
    ({**R, "f0": "c_states", "f1": "robust_translog", "layout": "ints", "mix": 3, "obs": 0, "stages": "one"}, 2),
    ({**R, "names": "odd", "layout": "tuples", "f0": "translog", "anch": "0", "mix": 1, "obs": 0, "norm": "both"}, 2),
]
MORE = [
    ({**R, "T": 4, "layout": "empty_mid", "stages": "two", "anch": "01same", "norm": "both"}, 2),
    ({**M, "nf": 3, "T": 3, "f0": "translog", "f1": "translog", "f2": "linear", "layout": "short", "stages": "two", "norm": "odd"}, 2),
]


def cases(tier):
    starts = STARTS if tier == "quick" else [(c, d + 1) for c, d in STARTS + MORE]
    out = []
    for c, d in starts:
        b = specs.build(c)
        n = len(actions(b.model))
        # the search below each first action is one case
        for i in range(n):
            out.append({"label": f"{specs.label(c)} first {i}", "cfg": c, "depth": d, "first": i})
    out.append({"label": "update_parameter_values", "cfg": STARTS[1][0], "update": True})
    return out


# ------------------------------------------------------------------ abstract actions


def names_of(model):
    return list(dict.fromkeys(m for s in model["factors"].values() for per in s["measurements"] for m in per))


def actions(model):
    fac = list(model["factors"])
    meas = names_of(model)
    con = list(model.get("controls", []))
    T = max(len(s["measurements"]) for s in model["factors"].values())
    acts = []

    def spelled(x, names):
        """A lone string whenever other names are a part of it."""
        return x if isinstance(x, str) and any(y != x and y in x for y in names) else [x]

    for f in fac:
        if len(fac) > 1:
            acts.append(["remove_factors", spelled(f, fac)])
        acts.append(["extract_factors", spelled(f, fac)])
    if len(fac) > 1:
        acts.append(["remove_factors", fac[0]])  # a string
        acts.append(["extract_factors", fac[-1]])
        acts.append(["extract_factors", fac[::-1]])
    if len(fac) > 2:
        acts.append(["remove_factors", [fac[2], fac[0]]])
        acts.append(["extract_factors", [fac[2], fac[0]]])
    acts.append(["remove_factors", ["unknown"]])
    for m in meas:
        acts.append(["remove_measurements", spelled(m, meas)])
    if isinstance(meas[0], str):
        acts.append(["remove_measurements", meas[0]])
    if len(meas) > 1:
        acts.append(["remove_measurements", [meas[-1], meas[0], "unknown"]])
    for c in con:
        acts.append(["remove_controls", spelled(c, con)])
    acts.append(["remove_controls", con[0] if con else "unknown"])
    if len(con) > 1:
        acts.append(["remove_controls", con[::-1]])
    for n in range(1, T + 2):
        acts.append(["reduce_n_periods", n])
    acts.append(["switch_translog_to_linear", None])
    acts.append(["switch_linear_to_translog", None])
    return acts


def listed(x):
    return [x] if isinstance(x, str) else list(x)


def abstract(model, act):
    """Independent edit of a model dictionary."""
    m = copy.deepcopy(model)
    name, arg = act

    def cut(n):
        for s in m["factors"].values():
            s["measurements"] = s["measurements"][:n]
            for k in s.get("normalizations", {}):
                s["normalizations"][k] = s["normalizations"][k][:n]
        if "stagemap" in m:
            m["stagemap"] = m["stagemap"][: n - 1]

    if name in ("remove_factors", "extract_factors"):
        gone = set(listed(arg)) if name == "remove_factors" else set(m["factors"]) - set(listed(arg))
        m["factors"] = {k: v for k, v in m["factors"].items() if k not in gone}
        if "anchoring" in m:
            m["anchoring"]["outcomes"] = {k: v for k, v in m["anchoring"]["outcomes"].items() if k not in gone}
            if not m["anchoring"]["outcomes"]:
                del m["anchoring"]
        if m["factors"]:
            cut(max(len(s["measurements"]) for s in m["factors"].values()))
    elif name == "remove_measurements":
        gone = set(listed(arg))
        for s in m["factors"].values():
            s["measurements"] = [[x for x in per if x not in gone] for per in s["measurements"]]
            for k in s.get("normalizations", {}):
                s["normalizations"][k] = [{y: v for y, v in d.items() if y not in gone} for d in s["normalizations"][k]]
    elif name == "remove_controls":
        left = [c for c in m.get("controls", []) if c not in set(listed(arg))]
        m.pop("controls", None)
        if left:
            m["controls"] = left
    elif name == "reduce_n_periods":
        cut(arg)
    else:
        a, b = ("translog", "linear") if name == "switch_translog_to_linear" else ("linear", "translog")
        for s in m["factors"].values():
            if isinstance(s["transition_function"], str) and s["transition_function"] == a:
                s["transition_function"] = b
    return m


def possible(model):
    """The edited model still has something to estimate."""
    return bool(model["factors"]) and bool(names_of(model))


def canon(model):
    m = copy.deepcopy(model)
    for s in m["factors"].values():
        f = s["transition_function"]
        s["transition_function"] = f if isinstance(f, str) else f"custom {id(f)}"
    if not m.get("controls"):
        m.pop("controls", None)
    m["__order__"] = [list(m["factors"]), list(m.get("anchoring", {}).get("outcomes", {}))]
    return m


# ------------------------------------------------------------------ search


class State:
    def __init__(self, model, frame):
        self.model = model
        self.frame = frame  # expected params, in template order


def start_frame(model):
    import numpy as np

    from mc.common import params_for

    f = params_for(ref.Ref(model), 0)
    f = f.loc[template(model)]
    f["lower_bound"] = np.linspace(-9, -8, len(f))
    f["upper_bound"] = np.linspace(8, 9, len(f))
    f["comment"] = [str(i) for i in range(len(f))]
    return f


def template(model):
    from skillmodels.params_index import get_params_index
    from skillmodels.process_model import process_model

    p = process_model(model)
    return get_params_index(p["update_info"], p["labels"], p["dimensions"], p["transition_info"])


def expected_frame(frame, model, act):
    """Surviving rows unchanged; new rows of a translog model are filled."""
    import numpy as np
    import pandas as pd

    labels = ref.Ref(model).labels()
    known = {tuple(k): i for i, k in enumerate(frame.index)}
    new = [lab for lab in labels if lab not in known]
    keep = frame.iloc[[known[lab] for lab in labels if lab in known]]
    if not new:
        return keep, new
    fill = pd.DataFrame(
        {"value": 0.05, "lower_bound": -np.inf, "upper_bound": np.inf, "comment": np.nan},
        index=pd.MultiIndex.from_tuples(new, names=frame.index.names),
    )
    return pd.concat([keep, fill]), new


def same_rows(a, b):
    """Frames are equal, row by row in the order of b."""
    import pandas as pd

    if set(map(tuple, a.index)) != set(map(tuple, b.index)) or len(a) != len(b):
        return "rows differ: " + str(sorted(map(str, set(map(tuple, a.index)) ^ set(map(tuple, b.index))))[:4])
    a = a.loc[b.index]
    if list(a.columns) != list(b.columns):
        return f"columns {list(a.columns)}"
    for c in b.columns:
        x, y = a[c], b[c]
        bad = ~((x == y) | (x.isna() & y.isna())).to_numpy()
        if bad.any():
            i = int(bad.argmax())
            return f"column {c} of {tuple(b.index[i])} is {x.iloc[i]!r}, expected {y.iloc[i]!r}"
    return ""


def run(payload, res):
    if payload.get("update"):
        run_update(payload, res)
        return
    b = specs.build(payload["cfg"])
    root = State(b.model, start_frame(b.model))
    acts = actions(b.model)
    nxt = step(root, acts[payload["first"]], res)
    res.states += 1
    if nxt is None:
        return
    seen = {key(nxt)}
    frontier = [nxt]
    for _ in range(payload["depth"] - 1):
        new = []
        for s in frontier:
            for a in actions(s.model):
                n = step(s, a, res)
                if n is None:
                    continue
                k = key(n)
                if k not in seen:
                    seen.add(k)
                    new.append(n)
            if len(res.violations) > 10:
                return
        frontier = new
    res.states += len(seen)
    res.sample({"start": payload["label"], "first": acts[payload["first"]], "states": len(seen)})


def key(s):
    from mc.core import fingerprint

    return fingerprint([canon(s.model), [(str(k), v) for k, v in zip(s.frame.index, s.frame["value"])]])


def call(act, model, params=None):
    import skillmodels.utilities as u

    name, arg = act
    kw = {} if params is None else {"params": params}
    if name.startswith("switch"):
        return getattr(u, name)(model, **kw)
    if name == "reduce_n_periods":
        return u.reduce_n_periods(model, arg, **kw)
    return getattr(u, name)(copy.copy(arg), model, **kw)


def step(s, act, res):
    """One edge: real function against the abstract effect.  Returns the next state."""
    want = abstract(s.model, act)
    if not possible(want):
        return None
    label = f"{act[0]}({act[1]})"
    before_m, before_p = canon(s.model), s.frame.copy()
    tag = act[0]
    res.transitions += 1
    try:
        only_model = call(act, s.model)
        both = call(act, s.model, s.frame)
    except Exception as e:  # noqa: BLE001
        res.fail(f"{tag}:raises", f"{label}: {type(e).__name__}: {str(e)[:300]}", model=str(canon(s.model))[:600])
        return None
    ok = res.check(isinstance(both, tuple) and len(both) == 2, f"{tag}:return", f"{label}: no pair returned")
    if not ok:
        return None
    new_model, new_params = both
    res.check(canon(s.model) == before_m, f"{tag}:mutates-model", f"{label} changed its input model")
    res.check(same_rows(s.frame, before_p) == "" and list(s.frame.index) == list(before_p.index), f"{tag}:mutates-params", f"{label} changed its input params")
    cw = canon(want)
    ok = res.check(canon(only_model) == cw, f"{tag}:model", f"{label}: model is {diff(canon(only_model), cw)}")
    ok &= res.check(canon(new_model) == cw, f"{tag}:model-with-params", f"{label}: model returned with params is {diff(canon(new_model), cw)}")
    if not ok:
        return None
    try:
        idx = template(new_model)
    except Exception as e:  # noqa: BLE001
        res.fail(f"{tag}:invalid", f"{label}: edited model is rejected: {type(e).__name__}: {str(e)[:300]}")
        return None
    frame, new = expected_frame(s.frame, want, act)
    d = same_rows(new_params, frame)
    res.check(d == "", f"{tag}:params", f"{label}: {d}")
    res.check(list(map(tuple, new_params.index)) == list(map(tuple, idx)), f"{tag}:template-order", f"{label}: params are not in template order")
    try:
        again_m, again_p = call(act, new_model, new_params)
        res.check(canon(again_m) == cw, f"{tag}:idempotent", f"{label} twice: {diff(canon(again_m), cw)}")
        res.check(same_rows(again_p, frame) == "", f"{tag}:idempotent-params", f"{label} twice: {same_rows(again_p, frame)}")
    except Exception as e:  # noqa: BLE001
        res.fail(f"{tag}:twice-raises", f"{label} twice: {type(e).__name__}: {str(e)[:300]}")
    res.traces += 1
    res.saw([cw, len(frame), len(new)])
    return State(want, frame.loc[idx])


def diff(a, b):
    keys = [k for k in set(a) | set(b) if a.get(k) != b.get(k)]
    return "; ".join(f"{k}: {str(a.get(k))[:300]} instead of {str(b.get(k))[:300]}" for k in sorted(keys))


def run_update(payload, res):
    import numpy as np
    import pandas as pd

    from skillmodels.utilities import update_parameter_values

    b = specs.build(payload["cfg"])
    idx = template(b.model)
    base = pd.DataFrame({"value": np.arange(len(idx)) + 0.5, "lower_bound": -1.0}, index=idx)
    foreign = pd.MultiIndex.from_tuples([("foo", 0, "-", "-"), ("transition", 9, "x", "y")], names=idx.names)
    n = len(idx)
    frames = []
    sets = [[0], [0, 1, n - 1], list(range(n)), list(range(n))[::-1], list(range(3, n, 2)), []]
    for k, s in enumerate(sets):
        f = pd.DataFrame({"value": [100.0 * (k + 1) + i for i in s]}, index=idx[s])
        frames.append(f)
        f2 = pd.concat([pd.DataFrame({"value": [-1.0, -2.0]}, index=foreign), f])
        f2["lower_bound"] = 77.0
        frames.append(f2)
    starts = {
        "floats": base,
        "unordered": base.iloc[::-1],
        "empty template": pd.DataFrame(columns=["value"], index=idx),
    }
    for sname, start in starts.items():
        for depth in range(0, 4):
            for seq in itertools.product(range(len(frames)), repeat=depth):
                if depth == 3 and (seq[0] + seq[1] + seq[2]) % 3:
                    continue
                others = [frames[i] for i in seq]
                copies = [start.copy()] + [o.copy() for o in others]
                want = {tuple(k): v for k, v in zip(start.index, start["value"])}
                for o in others:
                    for k, v in zip(o.index, o["value"]):
                        if tuple(k) in want:
                            want[tuple(k)] = v
                out = update_parameter_values(start, others if depth != 1 or seq[0] % 2 else others[0])
                got = out["value"].to_numpy(dtype=float)
                res.close(got, np.array([want[tuple(k)] for k in start.index], dtype=float), "update_parameter_values", f"start {sname} others {seq}", rtol=0, atol=0)
                res.check(list(out.index) == list(start.index) and list(out.columns) == list(start.columns), "update-index", f"{sname} {seq}")
                if "lower_bound" in start:
                    res.check((out["lower_bound"] == start["lower_bound"]).all(), "update-columns", f"{sname} {seq}")
                for o, c in zip([start] + others, copies):
                    res.check(o.equals(c), "update-mutates", f"{sname} {seq}")
                res.states += 1
                res.transitions += depth
                res.traces += 1
    res.saw(len(frames))
