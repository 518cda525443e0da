"""C20: public functions never modify their arguments."""
import copy
import itertools

from mc import ref, specs

ID = "C20"
RULE = (
    "A catalogue of calls of all public functions (estimation inputs and the functions they return, filtered states, anchoring, "
    "simulation, model editing, correlations, heatmaps, transition and distribution plots and their combinations) with every kind of "
    "argument and option dictionary x model specifications.  For every call: deep snapshot of all arguments before and after; snapshot "
    "of the result, then every argument is modified deeply in place and the result must not change (functions in the result are "
    "evaluated, also for the first time, after the modification); the result is modified deeply in place and the call is repeated with "
    "fresh equal arguments and must give the first result.  All ordered pairs of cheap calls, and the whole catalogue forwards and "
    "backwards, must give the same results whatever was called before; so must other processes with other hash seeds and other states "
    "of the random number generator.  Settings of the process are recorded before and after every call.  states = (specification, call), transitions = calls executed."
)
BOUNDS = {
    "quick": "9 specifications x 45 calls; all ordered pairs of the calls that neither plot nor filter, on shared arguments, for 2 specifications; 2 specifications x 4 hash seeds",
    "thorough": "all specifications within one deviation of two rich ones; all ordered pairs for 6 specifications; 9 specifications x 9 hash seeds",
}
ASSUMPTIONS = ["functions that draw random numbers are exempt from giving the same result twice"]

S = specs
CFGS = [
    {**S.MINIMAL, "norm": "both"},
    {**S.RICH, "anch": "01", "obs": 2, "layout": "std", "norm": "both", "controls": 2},
    {**S.PLAIN, "layout": "shared", "stages": "two", "norm": "odd"},
    {**S.RICH, "f0": "c_names", "f1": "c_states", "anch": "10", "flags": "1111", "layout": "std", "names": "rev"},
    {**S.PLAIN, "nf": 3, "f0": "log_ces", "f2": "translog", "layout": "ragged", "anch": "02", "obs": 1},
    {**S.MINIMAL, "T": 1, "mix": 2, "controls": 1},
    {**S.PLAIN, "layout": "short", "f0": "robust_translog", "f1": "linear_and_squares"},
    {**S.RICHLIN, "layout": "late", "flags": "0001", "stages": "one"},
    {**S.PLAIN, "layout": "ints", "anch": "1", "flags": "1010", "obs": 2, "norm": "both"},
]


def configs(tier):
    out = [S.normalize(c) for c in CFGS]
    if tier == "thorough":
        extra = S.union(S.explore(S.normalize(CFGS[1]), 1), S.explore(S.normalize(CFGS[2]), 1))
        out += [c for c in extra if c not in out]
    for c in out:
        assert S.valid(c), c
    return out


def cases(tier):
    out = []
    for k, c in enumerate(configs(tier)):
        if k in (1, 8) if tier == "quick" else k < 9:
            for group in ("inputs", "states", "edit", "corr", "trans", "dist"):
                if group != "trans" or c["T"] > 1:
                    out.append({"label": f"hash {group} {S.label(c)}", "cfg": c, "mode": "hash", "group": group, "seeds": [1, 2, 5] if tier == "quick" else list(range(1, 9))})
        for group in ("inputs", "states", "edit", "corr", "trans", "dist"):
            if group in ("trans",) and c["T"] == 1:
                continue
            out.append({"label": f"{group} {S.label(c)}", "cfg": c, "mode": "calls", "group": group})
        if k in ((1, 4) if tier == "quick" else (0, 1, 2, 3, 4, 8)):
            for p in range(4):
                out.append({"label": f"pairs {S.label(c)} {p}/4", "cfg": c, "mode": "pairs", "part": p, "parts": 4, "plots": tier == "thorough"})
    return out


# ------------------------------------------------------------------ snapshots and in-place modification


def snap(obj):
    """Hashable description of the full contents of an object."""
    import numpy as np
    import pandas as pd

    if obj is None or isinstance(obj, (str, bool, bytes)):
        return repr(obj)
    if isinstance(obj, (int, float, np.generic)):
        return repr(round(float(obj), 10)) if not isinstance(obj, (bool, np.bool_)) else repr(bool(obj))
    if isinstance(obj, pd.DataFrame):
        return ("frame", snap(obj.index), snap(obj.columns), tuple(map(str, obj.dtypes)), tuple(snap(obj.iloc[:, k].to_numpy()) for k in range(obj.shape[1])))
    if isinstance(obj, pd.Series):
        return ("series", snap(obj.index), repr(obj.name), str(obj.dtype), snap(obj.to_numpy()))
    if isinstance(obj, pd.MultiIndex):
        return ("mindex", tuple(map(repr, obj.names)), tuple(map(repr, obj.tolist())))
    if isinstance(obj, pd.Index):
        return ("index", repr(obj.name), tuple(map(repr, obj.tolist())))
    if isinstance(obj, np.ndarray):
        if obj.dtype.kind == "f":
            return ("array", obj.shape, tuple(np.round(obj, 9).flatten().tolist()).__repr__())
        return ("array", obj.shape, str(obj.tolist()))
    if isinstance(obj, dict):
        return ("dict", tuple((repr(k), snap(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snap(v) for v in obj))
    if hasattr(obj, "to_plotly_json") and hasattr(obj, "layout"):
        return ("figure", snap(obj.to_plotly_json()))
    if hasattr(obj, "__array__"):
        return snap(np.asarray(obj))
    if callable(obj):
        return ("callable", getattr(obj, "__name__", type(obj).__name__))
    return ("other", repr(obj))


def spoil(obj, depth=0):
    """Modify an object in place as thoroughly as possible."""
    import numpy as np
    import pandas as pd

    if isinstance(obj, dict):
        for v in list(obj.values()):
            spoil(v, depth + 1)
        for k in list(obj):
            if isinstance(obj[k], str):
                obj[k] = obj[k] + "_spoiled"
            elif isinstance(obj[k], bool):
                obj[k] = not obj[k]
            elif isinstance(obj[k], (int, float)):
                obj[k] = obj[k] + 17
        obj["__spoiled__"] = 1
        if len(obj) > 2:
            obj.pop(next(iter(obj)))
    elif isinstance(obj, list):
        for v in obj:
            spoil(v, depth + 1)
        obj.reverse()
        obj.append("__spoiled__")
    elif isinstance(obj, tuple):
        for v in obj:
            spoil(v, depth + 1)
    elif isinstance(obj, pd.DataFrame):
        for k in range(obj.shape[1]):
            arr = obj.iloc[:, k].to_numpy()
            try:
                if arr.dtype.kind == "f":
                    arr[...] = arr + 1000.0
                elif arr.dtype.kind == "i":
                    arr[...] = arr + 1000
                elif arr.dtype.kind == "O":
                    for v in arr:
                        spoil(v, depth + 1)
            except ValueError:
                pass
        obj.index.names = [f"spoiled{k}" for k in range(obj.index.nlevels)]
        obj["__spoiled__"] = 1.0
        if len(obj):
            obj.drop(index=obj.index[0], inplace=True)
    elif isinstance(obj, np.ndarray):
        try:
            obj[...] = obj + 1000
        except (ValueError, TypeError):
            pass
    elif hasattr(obj, "to_plotly_json") and hasattr(obj, "layout"):
        for d in obj.data:
            if d.type in ("scatter", "contour", "heatmap", "surface", "histogram"):
                d.update({"name": "spoiled", "x": [1, 2, 3], "visible": False})
        obj.update_layout(title="spoiled", xaxis_title="spoiled", yaxis_title="spoiled", showlegend=True)


# ------------------------------------------------------------------ the catalogue


class World:
    """Fresh, equal argument objects for one specification."""

    def __init__(self, cfg):
        import pandas as pd

        from mc.common import params_for

        self.b = b = specs.build(cfg)
        self.r = ref.Ref(b.model)
        self._model = b.model
        rows = []
        for i in range(7):
            for t in range(b.T):
                row = {"id": i, "period": t}
                for v in list(b.variables()) + b.observed + b.controls:
                    row[v] = specs.val(-1, 1, "c20", str(v), t, i)
                rows.append(row)
        self._data = pd.DataFrame(rows).set_index(["id", "period"])
        self._params = params_for(self.r)
        self._states = pd.DataFrame(
            [{**{f: specs.val(-1, 1, "c20s", f, t, i) for f in b.factors}, "id": i, "period": t} for i in range(7) for t in range(b.T)]
        )

    def model(self):
        return copy.deepcopy(self._model)

    def data(self, other=False):
        df = self._data.copy(deep=True)
        if other:
            # unsorted rows, other labels, a missing control, a surplus column
            df = df.iloc[::-1].copy()
            df["surplus"] = range(len(df))
            df.index = df.index.set_names(["child", "wave"])
            if self.b.controls:
                df.iloc[0, df.columns.get_loc(self.b.controls[0])] = float("nan")
        # the index must not be shared with other frames
        df.index = df.index.copy(deep=True)
        return df

    def params(self, other=False):
        p = self._params.copy(deep=True)
        if other:
            p = p.iloc[::-1].copy()
            p["lower_bound"] = 0.5
            p["note"] = "x"
        p.index = p.index.copy(deep=True)
        return p

    def states(self, k=0):
        df = self._states.copy(deep=True)
        for f in self.b.factors:
            df[f] = df[f] * (1 + k) + 0.1 * k
        if k == 1:
            df = df.iloc[::-1].copy()
        return df


def catalogue(w, group):
    """name -> (function, factory of keyword arguments, options)."""
    import plotly.graph_objects as go

    from skillmodels import correlation_heatmap as ch
    from skillmodels import filtered_states as fs
    from skillmodels import get_filtered_states, get_maximization_inputs, simulate_dataset
    from skillmodels import utilities as ut
    from skillmodels import visualize_factor_distributions as vd
    from skillmodels import visualize_transition_equations as vt
    from skillmodels.process_data import process_data
    from skillmodels.process_model import process_model

    b = w.b
    fac, obs, con = b.factors, b.observed, b.controls
    allf = fac + obs
    meas = [m for m in dict.fromkeys(m for per in b.meas for p in per for m in p)]
    out = {}
    if group in ("inputs", "cheap"):

        def inputs(model_dict, data, params):
            inp = get_maximization_inputs(model_dict, data)
            res = {"template": inp["params_template"], "constraints": inp["constraints"]}
            res["lazy"] = lambda: inp["loglike"](params_kept)
            params_kept = w.params()
            res["called"] = inp["loglike"](params)
            return res

        def inputs_untouched(model_dict, data):
            inp = get_maximization_inputs(model_dict, data)
            keep = w.params()
            return {"lazy": lambda: inp["loglike"](keep), "lazy2": lambda: inp["debug_loglike"](keep)["value"]}

        def methods(params, which):
            inp = cached_inputs(w)
            return inp[which](params)

        if group == "inputs":
            out["get_maximization_inputs"] = (inputs, lambda: {"model_dict": w.model(), "data": w.data(), "params": w.params()})
            out["get_maximization_inputs other data"] = (inputs_untouched, lambda: {"model_dict": w.model(), "data": w.data(True)})
            for which in ("loglike", "debug_loglike", "gradient", "loglike_and_gradient"):
                out[which] = (methods, lambda which=which: {"params": w.params(True), "which": which})

        def process(model_dict, data):
            model = process_model(model_dict)
            return {"arrays": process_data(data, model["labels"], model["update_info"], model["anchoring"]), "dimensions": dict(model["dimensions"])}

        out["process_model and process_data"] = (process, lambda: {"model_dict": w.model(), "data": w.data()})
        out["process_data other data"] = (process, lambda: {"model_dict": w.model(), "data": w.data(True)})

        def process_in(labels, update_info, anchoring, data):
            return process_data(data, labels, update_info, anchoring)

        def processed():
            m = process_model(w.model())
            return {"labels": copy.deepcopy(m["labels"]), "update_info": m["update_info"].copy(deep=True), "anchoring": copy.deepcopy(m["anchoring"]), "data": w.data()}

        out["process_data alone"] = (process_in, processed)
    if group in ("states", "cheap"):
        out["anchor_states_df"] = (fs.anchor_states_df, lambda: {"states_df": w.states(1), "model_dict": w.model(), "params": w.params()})
        if group == "states":
            out["get_filtered_states"] = (get_filtered_states, lambda: {"model_dict": w.model(), "data": w.data(), "params": w.params()})
            out["get_filtered_states other"] = (get_filtered_states, lambda: {"model_dict": w.model(), "data": w.data(True), "params": w.params()})
            pol = [{"period": 0, "factor": fac[0], "effect_size": 0.5, "standard_deviation": 0.0}, {"period": max(b.T - 2, 0), "factor": fac[-1], "effect_size": -0.3, "standard_deviation": 0.2}]
            out["simulate_dataset"] = (simulate_dataset, lambda: {"model_dict": w.model(), "params": w.params(), "data": w.data(), "policies": copy.deepcopy(pol)}, "random")
            out["simulate_dataset other"] = (simulate_dataset, lambda: {"model_dict": w.model(), "params": w.params(True), "data": w.data().iloc[::-1].copy()}, "random")
            if not con and not obs:
                out["simulate_dataset n_obs"] = (simulate_dataset, lambda: {"model_dict": w.model(), "params": w.params(), "n_obs": 4}, "random")
    if group in ("edit", "cheap"):
        for name, args in (
            ("extract_factors", {"factors": [fac[0]]}),
            ("remove_factors", {"factors": [fac[-1]] if len(fac) > 1 else ["unknown"]}),
            ("remove_measurements", {"measurements": [meas[-1], meas[0]]}),
            ("remove_controls", {"controls": list(con) or ["unknown"]}),
            ("switch_translog_to_linear", {}),
            ("switch_linear_to_translog", {}),
            ("reduce_n_periods", {"new_n_periods": max(b.T - 1, 1)}),
            ("reduce_n_periods", {"new_n_periods": b.T}),
        ):
            for par in (False, True):
                out[f"{name} {args} params={par}"] = (
                    getattr(ut, name),
                    lambda args=args, par=par: {**copy.deepcopy(args), "model_dict": w.model(), **({"params": w.params(True)} if par else {})},
                )
        out["update_parameter_values"] = (ut.update_parameter_values, lambda: {"params": w.params(), "others": [w.params(True).iloc[:2].copy(), w.params().iloc[1:3].copy()]})
        out["update_parameter_values frame"] = (ut.update_parameter_values, lambda: {"params": w.params(), "others": w.params(True).iloc[:2].copy()})
    if group in ("corr", "cheap"):
        for name in ("get_measurements_corr", "get_quasi_scores_corr", "get_scores_corr"):
            for factors, periods in ((list(allf), None), (list(fac), 0), (list(allf[::-1]), list(range(b.T))[::-1])):
                out[f"{name} {factors} {periods}"] = (
                    getattr(ch, name),
                    lambda name=name, factors=factors, periods=periods: {
                        "data": w.data(),
                        "model_dict": w.model(),
                        "factors": list(factors),
                        "periods": copy.copy(periods),
                        **({"params": w.params()} if name == "get_scores_corr" else {}),
                    },
                )
        base = w.data().corr()
        for k, kw in enumerate(
            (
                {},
                {"show_diagonal": False, "show_upper_triangle": False, "trim_heatmap": True},
                {"heatmap_kwargs": {"colorbar": {"thickness": 11}, "zmax": 0.7}, "layout_kwargs": {"title": {"text": "A"}, "xaxis": {"tickangle": 3}}},
                {"show_upper_triangle": False, "annotate": False, "axes_tick_fontsize": {"x": 9, "y": 8}, "axes_tick_label_angle": {"x": 30, "y": 10}, "axes_tick_label_color": {"x": "red", "y": "blue"}},
            )
        ):
            out[f"plot_correlation_heatmap {k}"] = (ch.plot_correlation_heatmap, lambda kw=kw: {"corr": base.copy(deep=True), **copy.deepcopy(kw)})
    lay = {"title": {"text": "A title", "font": {"size": 12}}, "legend": {"orientation": "h"}}
    if group == "trans":
        import pandas as pd

        ranges = lambda: {f: pd.DataFrame({"minimum": [-1.0 - t for t in range(b.T)], "maximum": [1.0 + t for t in range(b.T)]}) for f in allf}  # noqa: E731
        common = lambda: {"model_dict": w.model(), "params": w.params(), "data": w.data(), "period": 0, "n_points": 4}  # noqa: E731
        out["get_transition_plots"] = (vt.get_transition_plots, lambda: {**common(), "quantiles_of_other_factors": [0.8, 0.2], "layout_kwargs": copy.deepcopy(lay)})
        out["get_transition_plots ranges"] = (vt.get_transition_plots, lambda: {**common(), "params": w.params(True), "state_ranges": ranges(), "quantiles_of_other_factors": 0.5})
        out["get_transition_plots average"] = (vt.get_transition_plots, lambda: {**common(), "state_ranges": ranges(), "quantiles_of_other_factors": None, "n_draws": 3}, "random")
    if group in ("trans", "cheap"):

        def line(i, o):
            fig = go.Figure(go.Scatter(x=[1, 2], y=[allf.index(i), fac.index(o)], name="q"))
            fig.update_xaxes(title={"text": i})
            fig.update_yaxes(title={"text": o})
            return fig

        plots = lambda: {(i, o): line(i, o) for o in fac for i in allf}  # noqa: E731
        for k, kw in enumerate(
            (
                {},
                {"column_order": allf[::-1], "row_order": fac[::-1], "factor_mapping": {allf[0]: "First"}, "make_subplot_kwargs": {"horizontal_spacing": 0.02}},
                {"layout_kwargs": lay, "legend_kwargs": {"title": {"text": "L"}}, "title_kwargs": {"text": "T"}, "showlegend": False},
                {"layout_kwargs": {"legend": {"x": 0.2}}, "legend_kwargs": {"y": 0.3}, "column_order": allf[0], "row_order": [fac[0]], "factor_mapping": {}},
            )
        ):
            out[f"combine_transition_plots {k}"] = (vt.combine_transition_plots, lambda kw=kw: {"plots_dict": plots(), **copy.deepcopy(kw)})
    if group == "dist":
        common = lambda: {"data": w.data(), "model_dict": w.model(), "params": w.params(), "period": b.T - 1}  # noqa: E731
        forms = {"frame": lambda: w.states(), "list": lambda: [w.states(), w.states(1)], "dict": lambda: {"b": w.states(1), "a": w.states(2)}, "none": lambda: None}
        for form, make in forms.items():
            out[f"univariate_densities {form}"] = (
                vd.univariate_densities,
                lambda make=make: {**common(), "states": make(), "factors": list(allf[::-1]), "distplot_kwargs": {"show_rug": True, "bin_size": [0.3, 0.3]}, "layout_kwargs": copy.deepcopy(lay), "show_hist": True},
            )
            out[f"bivariate_density_contours {form}"] = (
                vd.bivariate_density_contours,
                lambda make=make: {**common(), "states": make(), "observed_factors": True, "n_points": 4, "contour_kwargs": {"colorbar": {"thickness": 5}}, "layout_kwargs": copy.deepcopy(lay)},
            )
            if form in ("frame", "none"):
                out[f"bivariate_density_surfaces {form}"] = (
                    vd.bivariate_density_surfaces,
                    lambda make=make: {**common(), "states": make(), "factors": list(allf), "n_points": 3, "layout_kwargs": {"width": 300, "title": {"text": "x"}}},
                )
    if group in ("dist", "cheap"):

        def figs():
            kdes = {f: go.Figure(go.Scatter(x=[1, 2], y=[3, allf.index(f)], name="a")) for f in allf}
            cont, surf = {}, {}
            for p in itertools.permutations(allf, 2):
                z = [[allf.index(p[0]), allf.index(p[1])], [1, 2]]
                cont[p] = go.Figure(go.Contour(x=[1, 2], y=[1, 2], z=z))
                cont[p].update_xaxes(title={"text": p[0]})
                cont[p].update_yaxes(title={"text": p[1]})
                surf[p] = go.Figure(go.Surface(z=z))
            return kdes, cont, surf

        for k, kw in enumerate(
            (
                {},
                {"factor_order": allf[::-1], "factor_mapping": {allf[0]: "First"}, "make_subplot_kwargs": {"horizontal_spacing": 0.02}},
                {"layout_kwargs": lay, "legend_kwargs": {"title": {"text": "L"}}, "title_kwargs": {"text": "T"}, "showlegend": True, "factor_mapping": {}},
                {"factor_order": [allf[0]], "legend_kwargs": {"y": 0.3}, "layout_kwargs": {"legend": {"x": 0.2}}},
            )
        ):

            def args(kw=kw, k=k):
                a, c, s = figs()
                return {"kde_plots": a, "contour_plots": c, "surface_plots": s if k != 1 else None, **copy.deepcopy(kw)}

            out[f"combine_distribution_plots {k}"] = (vd.combine_distribution_plots, args)
    return out


_INPUTS = {}


def cached_inputs(w):
    from skillmodels import get_maximization_inputs

    key = repr(w._model)
    if key not in _INPUTS:
        _INPUTS.clear()
        _INPUTS[key] = get_maximization_inputs(w.model(), w.data())
    return _INPUTS[key]


def evaluate(result):
    """Replace the delayed parts of a result by their current values."""
    if isinstance(result, dict):
        return {k: (v() if callable(v) and k.startswith("lazy") else v) for k, v in result.items()}
    return result


def surroundings():
    """Settings of the process that a function may not change."""
    import random

    import numpy as np
    import pandas as pd
    import plotly.io as pio

    out = {"numpy errors": repr(np.geterr()), "numpy printing": repr(np.get_printoptions()), "plot template": repr(pio.templates.default), "plot renderer": repr(pio.renderers.default)}
    out.update({o: repr(pd.get_option(o)) for o in ("mode.chained_assignment", "mode.copy_on_write", "display.max_rows", "display.max_columns", "display.precision", "display.float_format", "mode.use_inf_as_na")})
    name, keys, pos, gauss, cached = np.random.get_state()
    out["numpy random state"] = repr((name, hash(keys.tobytes()), pos, gauss, cached))
    out["random state"] = hash(random.getstate())
    return out


def call(fn, args, res, where, seed=3, random=False):
    import warnings

    import numpy as np

    np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = surroundings()
        res.transitions += 1
        out = fn(**args)
        after = surroundings()
    for k in before:
        if not (random and k == "numpy random state"):
            res.check(before[k] == after[k], "process", f"{where}: {k} changed from {str(before[k])[:100]} to {str(after[k])[:100]}")
    return out


def run(payload, res):
    {"calls": run_calls, "pairs": run_pairs, "hash": run_hash}[payload["mode"]](payload, res)


def diff(a, b, path=""):
    """First difference of two snapshots."""
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else k}")
    return f"{path}: {str(a)[:150]} became {str(b)[:150]}"


def run_calls(payload, res):
    import warnings

    w = World(payload["cfg"])
    for name, (fn, make, *opt) in catalogue(w, payload["group"]).items():
        args = make()
        before = {k: snap(v) for k, v in args.items()}
        result = call(fn, args, res, name, random="random" in opt)
        for k, v in args.items():
            now = snap(v)
            res.check(now == before[k], "argument", f"{name}: argument {k} was modified {diff(before[k], now)}")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            lazy = isinstance(result, dict) and any(str(k).startswith("lazy") for k in result)
            first = None if lazy else snap(result)
            for v in args.values():
                spoil(v)
            after = snap(evaluate(result))
        if first is not None:
            res.check(after == first, "alias", f"{name}: the result changed when the arguments were modified later {diff(first, after)}")
        # the same call again, after the caller modified the first result, with fresh arguments
        spoil(result)
        args = make()
        # functions that do not draw do not depend on the random state either
        again = call(fn, args, res, name, seed=11, random="random" in opt)
        if lazy:
            again_first = snap(evaluate(again))
            res.check(after == again_first, "alias", f"{name}: the result changed when the arguments were modified later {diff(again_first, after)}")
        elif "random" not in opt:
            second = snap(again)
            res.check(second == first, "repeat", f"{name}: the second call gives another result {diff(first, second)}")
            third = snap(call(fn, args, res, name, seed=12))
            res.check(third == first, "repeat", f"{name}: the third call, on the same objects, gives another result {diff(first, third)}")
        res.states += 1
        res.traces += 1
        res.saw(name)
    res.sample({"case": payload["label"]})


def run_pairs(payload, res):
    w = World(payload["cfg"])
    cat = {name: (fn, make) for name, (fn, make, *opt) in catalogue(w, "cheap").items() if "random" not in opt and (payload["plots"] or not name.startswith(("combine", "plot_")))}
    names = list(cat)
    shared = {name: make() for name, (fn, make) in cat.items()}
    alone = {name: snap(call(cat[name][0], shared[name], res, name)) for name in names}
    # all ordered pairs occur as neighbours in this walk
    order = []
    n = len(names)
    for shift in range(1 + payload["part"], n, payload["parts"]):
        seen = set()
        for start in range(n):
            if start in seen:
                continue
            k = start
            while k not in seen:
                seen.add(k)
                order.append(names[k])
                k = (k + shift) % n
            order.append(names[k])
    pairs = set()
    last = None
    for name in order:
        got = snap(call(cat[name][0], shared[name], res, name))
        res.check(got == alone[name], "history", f"{name} after {last} gives another result {diff(alone[name], got)}")
        pairs.add((last, name))
        last = name
        res.states += 1
    res.traces += len(pairs)
    res.note("ordered pairs", len(pairs))
    res.sample({"case": payload["label"], "calls": n, "pairs": len(pairs)})


# ------------------------------------------------------------------ other processes


def loose(obj):
    """Snapshot for comparing processes: the order of keys of dictionaries and the last digits do not count."""
    import numpy as np

    if isinstance(obj, dict):
        return ("dict", sorted((repr(k), loose(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [loose(v) for v in obj])
    if hasattr(obj, "to_plotly_json") and hasattr(obj, "layout"):
        return ("figure", loose(obj.to_plotly_json()))
    if isinstance(obj, (float, np.floating)):
        return f"{0.0 if abs(obj) < 1e-9 else float(obj):.5g}"
    if hasattr(obj, "iloc") and hasattr(obj, "columns"):
        return ("frame", snap(obj.index), snap(obj.columns), [loose(obj.iloc[:, k].to_numpy()) for k in range(obj.shape[1])])
    if hasattr(obj, "__array__") and not hasattr(obj, "index"):
        arr = np.asarray(obj)
        if arr.dtype.kind == "f":
            return ("array", arr.shape, [f"{v:.5g}" for v in np.where(np.abs(arr) < 1e-9, 0.0, arr).flatten()])
    return snap(obj)


def digests(cfg, group):
    import hashlib
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    w = World(cfg)
    out = {}
    for name, (fn, make, *opt) in catalogue(w, group).items():
        np.random.seed(3)
        got = loose(evaluate(fn(**make())))
        text = repr(got)
        out[name] = [hashlib.md5(text.encode()).hexdigest(), text[:120]]
    return out


def run_hash(payload, res):
    import json
    import os
    import subprocess
    import sys

    got = {}
    code = "import sys, json; from mc import env; env.load(); from mc.checks import c20; a = json.loads(sys.argv[1]); print('DIGESTS' + json.dumps(c20.digests(a[0], a[1])))"
    for seed in [0] + payload["seeds"]:
        env = {**os.environ, "PYTHONHASHSEED": str(seed)}
        p = subprocess.run([sys.executable, "-c", code, json.dumps([payload["cfg"], payload["group"]])], env=env, capture_output=True, text=True)
        lines = [x for x in p.stdout.splitlines() if x.startswith("DIGESTS")]
        if not lines:
            raise RuntimeError(f"process with hash seed {seed} failed: {p.stderr[-600:]}")
        got[seed] = json.loads(lines[-1][7:])
        res.states += 1
        res.transitions += len(got[seed])
    for seed in payload["seeds"]:
        for name, (digest, text) in got[seed].items():
            first = got[0][name]
            res.check(digest == first[0], "process-order", f"{name}: another process (hash seed {seed}) gets another result: {text} instead of {first[1]}")
            res.traces += 1
    res.saw(sorted(v[0] for v in got[0].values()))
    res.sample({"case": payload["label"], "calls": list(got[0])})
