"""The bounded space of model specifications, and generic data and parameters for them.

A configuration is a small JSON-able dict of dimensions (see DIMS).  ``explore`` lists,
in canonical order, every valid configuration that deviates from a base in at most d
dimensions; ``build`` turns a configuration into a model dictionary as a user would
write it.  Values of data and parameters are fixed functions of their *label* (never of
their position), so that two specifications that differ only in the order of listings
get the same value for the same label.
"""
import itertools
import json
import zlib

import numpy as np
import pandas as pd

BUILTIN = [
    "linear",
    "translog",
    "log_ces",
    "constant",
    "robust_translog",
    "linear_and_squares",
    "log_ces_general",
]
CUSTOM = ["c_names", "c_states", "c_own"]
LINEAR = {"linear", "constant"}

DIMS = {
    "nf": [1, 2, 3],
    "T": [1, 2, 3, 4],
    "f0": BUILTIN + CUSTOM,
    "f1": BUILTIN + CUSTOM,
    "f2": ["constant", "linear", "translog"],
    "mix": [1, 2, 3],
    "controls": [0, 1, 2],
    "obs": [0, 1, 2],
    "anch": ["none", "0", "1", "01", "10", "01same", "2", "02", "20", "021"],
    "flags": ["1110", "1111", "0000", "0001", "1000", "0100", "0010", "0110", "1010"],
    "layout": [
        "std",
        "one",
        "shared",
        "mid_shared",
        "ragged",
        "pername",
        "late",
        "short",
        "empty_mid",
        "empty_first",
        "empty_last",
        "rev",
        "ints",
    ],
    "norm": ["none", "first", "both", "odd"],
    "stages": ["none", "one", "two"],
    "scale": [2, 0.5, 1, 3],
    "names": ["abc", "rev", "sub"],
}

MINIMAL = {
    "nf": 1, "T": 2, "f0": "linear", "f1": "linear", "f2": "constant", "mix": 1,
    "controls": 0, "obs": 0, "anch": "none", "flags": "1110", "layout": "std",
    "norm": "none", "stages": "none", "scale": 2, "names": "abc",
}
RICH = {
    "nf": 2, "T": 3, "f0": "linear", "f1": "translog", "f2": "constant", "mix": 2,
    "controls": 1, "obs": 1, "anch": "0", "flags": "1110", "layout": "shared",
    "norm": "first", "stages": "none", "scale": 2, "names": "abc",
}
RICHLIN = {**RICH, "f1": "linear", "nf": 2, "anch": "01", "mix": 2}
# as RICH, with a single mixture component and without observed factors
PLAIN = {**RICH, "mix": 1, "obs": 0, "anch": "none"}

NAMES = {
    "abc": ["fac1", "fac2", "fac3"],
    "rev": ["zeta", "mid", "alpha"],
    "sub": ["s", "s_1", "as_1"],
    "num": [f"f{i}" for i in range(12)],
    "odd": ["non-cog", "mother's skill", "cog"],
}
CONTROLS = ["x1", "x"] + [f"c{i}" for i in range(10)]
OBSERVED = ["inv", "educ"]

# more than nine periods, factors, mixture components or controls; hyphens, blanks and quotes in names; tuples as names
WIDE = [
    {**MINIMAL, "T": 12, "layout": "one", "mix": 2, "anch": "0", "stages": "two", "controls": 1},
    {**MINIMAL, "T": 11, "nf": 2, "f1": "translog", "layout": "late", "names": "rev", "obs": 1},
    {**MINIMAL, "nf": 11, "names": "num", "layout": "one", "f0": "log_ces", "obs": 1},
    {**MINIMAL, "nf": 2, "mix": 11, "layout": "one", "f0": "translog"},
    {**MINIMAL, "controls": 12, "layout": "one", "anch": "0"},
    {**RICH, "nf": 3, "names": "odd", "f0": "translog", "f1": "log_ces", "anch": "10", "T": 2},
    {**MINIMAL, "nf": 2, "layout": "tuples", "mix": 2},
    {**MINIMAL, "nf": 2, "layout": "tuples", "anch": "1", "controls": 1, "obs": 1, "norm": "both", "f1": "translog"},
]


def valid(c):
    nf, T = c["nf"], c["T"]
    if nf < 3 and c["f2"] != "constant":
        return False
    if nf < 2 and c["f1"] != "linear":
        return False
    if c["anch"] != "none":
        if any(int(ch) >= nf for ch in c["anch"] if ch.isdigit()):
            return False
    elif c["flags"] != "1110":
        return False
    lay = c["layout"]
    if lay in ("shared", "mid_shared") and nf < 2:
        return False
    if lay == "short" and nf < 2:
        return False
    if lay in ("late", "empty_first", "empty_last", "pername", "mid_shared") and T < 2:
        return False
    if lay == "late" and nf < 2:
        return False
    if lay == "empty_mid" and T < 3:
        return False
    if T < 3 and c["stages"] == "two":
        return False
    if T < 2 and c["stages"] != "none":
        return False
    return True


def normalize(c):
    """Map configurations that describe the same model to one representative."""
    c = dict(c)
    if c["nf"] < 3:
        c["f2"] = "constant"
    if c["nf"] < 2:
        c["f1"] = "linear"
        if c["layout"] in ("shared", "mid_shared", "late", "short"):
            c["layout"] = "std"
    if c["anch"] == "none":
        c["flags"] = "1110"
    if c["T"] < 2:
        c["stages"] = "none"
        c["scale"] = 2
    return c


def explore(base, d, dims=None, only=None):
    """Every valid configuration that differs from base in at most d dimensions."""
    keys = list(dims or DIMS)
    vals = {k: (dims[k] if isinstance(dims, dict) else DIMS[k]) for k in keys}
    seen, out = set(), []
    for n in range(d + 1):
        for combo in itertools.combinations(keys, n):
            for choice in itertools.product(*[[v for v in vals[k] if v != base[k]] for k in combo]):
                c = normalize({**base, **dict(zip(combo, choice))})
                if not valid(c) or (only and not only(c)):
                    continue
                key = json.dumps(c, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    out.append(c)
    return out


def union(*lists):
    seen, out = set(), []
    for lst in lists:
        for c in lst:
            key = json.dumps(c, sort_keys=True)
            if key not in seen:
                seen.add(key)
                out.append(c)
    return out


def label(c, base=None):
    base = base or MINIMAL
    s = ",".join(f"{k}={v}" for k, v in c.items() if base.get(k) != v)
    return s or "base"


# ------------------------------------------------------------------ generic values


def unit(*key):
    """A fixed pseudo generic number in (0, 1) attached to a label."""
    h = zlib.crc32(("/".join(map(str, key))).encode())
    return ((h * 2654435761) % 4294967296 + 0.5) / 4294967296


def val(lo, hi, *key):
    return lo + (hi - lo) * unit(*key)


def param_value(lab, variant=0):
    """Generic value for a template row given its label."""
    cat, period, n1, n2 = lab
    if cat == "transition" and " * " in n2:
        # the interaction of a and b is the interaction of b and a
        n2 = " * ".join(sorted(n2.split(" * ")))
    k = (variant, cat, period, n1, n2)
    if cat == "controls":
        v = val(-0.6, 0.6, *k)
        return v + (0.11 if v >= 0 else -0.11)
    if cat == "loadings":
        v = val(0.5, 1.6, *k)
        return -v if unit("sign", *k) < (0.25 if variant else 0.1) else v
    if cat == "meas_sds":
        return val(0.3, 0.9, *k)
    if cat == "shock_sds":
        return val(0.2, 0.7, *k)
    if cat == "initial_states":
        return val(-0.8, 0.8, *k)
    if cat == "mixture_weights":
        return val(0.5, 1.5, *k)  # normalized later
    if cat == "initial_cholcovs":
        h = len(n2) // 2
        return val(0.5, 1.1, *k) if n2 == f"{n2[:h]}-{n2[:h]}" else val(-0.4, 0.4, *k)
    if cat == "transition":
        return transition_value(n2, k)
    raise ValueError(lab)


def transition_value(name, k):
    if name == "phi":
        return val(0.25, 0.7, *k) * (-1 if unit("s", *k) < 0.5 else 1)
    if name == "tfp":
        return val(0.5, 0.9, *k)
    if name.startswith("sigma_"):
        return val(0.3, 0.8, *k)
    if name in ("constant", "const"):
        return val(-0.4, 0.4, *k)
    if " ** 2" in name or " * " in name or name in ("inter", "sq"):
        return val(0.02, 0.1, *k) * (-1 if unit("s", *k) < 0.5 else 1)
    # linear coefficient; also log_ces weight, hence positive
    return val(0.15, 0.6, *k)


def make_params(index, variant=0, as_frame=True):
    vals = [param_value(lab, variant) for lab in index]
    w = [i for i, lab in enumerate(index) if lab[0] == "mixture_weights"]
    tot = sum(vals[i] for i in w)
    for i in w:
        vals[i] /= tot
    if not as_frame:
        return dict(zip(list(index), vals))
    return pd.DataFrame({"value": np.array(vals, dtype=float)}, index=index)


# ------------------------------------------------------------------ custom functions


def _register(func, params, kind):
    # public decorator of the package, as a user would apply it
    from skillmodels.decorators import register_params

    func = register_params(params=params)(func)
    func._mc_kind = kind
    return func


def custom_function(kind, factor, all_factors):
    first, last = all_factors[0], all_factors[-1]
    if kind == "c_names":
        # parameters first, factors in reverse order, names not in alphabetical order
        if first == last:
            src = f"def c_names(params, {first}):\n    return params['b'] * {first} + params['inter'] * {first} ** 2 + params['const']\n"
        else:
            src = (
                f"def c_names(params, {last}, {first}):\n"
                f"    return params['b'] * {first} + params['a'] * {last} + params['inter'] * {first} * {last} + params['const']\n"
            )
        ns = {}
        exec(src, ns)
        names = ["const", "b", "inter"] if first == last else ["const", "b", "a", "inter"]
        return _register(ns["c_names"], names, ("c_names", first, last))
    if kind == "c_states":

        def c_states(states, params):
            return params["k"] * states[0] + params["sq"] * (states**2).sum() + params["const"]

        return _register(c_states, ["sq", "k", "const"], ("c_states",))
    if kind == "c_own":
        src = f"def c_own({factor}, params):\n    return params['k'] * {factor} + params['const']\n"
        ns = {}
        exec(src, ns)
        return _register(ns["c_own"], ["k", "const"], ("c_own", factor))
    raise ValueError(kind)


# ------------------------------------------------------------------ model dictionaries


def _measurements(c, names):
    """List (per factor) of lists (per period) of measurement names."""
    nf, T, lay = c["nf"], c["T"], c["layout"]
    out = []
    for f in range(nf):
        per = []
        for t in range(T):
            m = [f"y{f}a", f"y{f}b"]
            if lay == "one":
                m = [f"y{f}"]
            elif lay == "shared":
                m = [f"y{f}a", "ys"] if f else [f"y{f}a", f"y{f}b", "ys"]
            elif lay == "mid_shared":
                m = [f"y{f}a"] + (["ys"] if t == 1 else [])
            elif lay == "ragged":
                m = [f"y{f}{x}" for x in "abc"[: (f + t) % 3]]
                if f == 0 and not m:
                    m = ["y0c"]
            elif lay == "pername":
                m = [f"y{f}_{t}", f"y{f}"]
            elif lay == "late" and f == nf - 1 and t == 0:
                m = []
            elif lay == "short" and f == nf - 1 and t >= 1:
                m = None
            elif lay == "empty_mid" and t == 1:
                m = []
            elif lay == "empty_first" and t == 0:
                m = []
            elif lay == "empty_last" and t == T - 1:
                m = []
            elif lay == "rev":
                m = [f"y{nf - f}z", f"y{nf - f}c"]
            elif lay == "ints":
                m = [10 * (nf - f) + 1, 10 * (nf - f)]
            elif lay == "tuples":
                m = [("y", nf - f, "b"), ("y", nf - f, "a")]
            if m is not None:
                per.append(m)
        out.append(per)
    return out


def _normalizations(c, per):
    kind = c["norm"]
    if kind == "none":
        return None
    if kind == "first":
        return {"loadings": [{m[0]: 1} if m else {} for m in per]}
    if kind == "both":
        return {
            "loadings": [{m[0]: 1} if m else {} for m in per],
            "intercepts": [{m[0]: 0} if m else {} for m in per],
        }
    # odd values, uneven periods, lists shorter than the number of periods
    return {
        "loadings": [{m[-1]: 2.5} if m and t == 0 else {} for t, m in enumerate(per)][:1],
        "intercepts": [({m[-1]: 0.7} if m and t % 2 else {}) for t, m in enumerate(per)][:2],
    }


class Built:
    """A model dictionary together with the names that occur in it."""

    def __init__(self, cfg):
        c = self.cfg = normalize(cfg)
        names = self.factors = NAMES[c["names"]][: c["nf"]]
        self.observed = OBSERVED[: c["obs"]]
        self.controls = CONTROLS[: c["controls"]]
        allf = names + self.observed
        meas = _measurements(c, names)
        model = {"factors": {}}
        for f, name in enumerate(names):
            kind = c.get(f"f{f}", "linear")
            func = kind if kind in BUILTIN else custom_function(kind, name, allf)
            spec = {"measurements": meas[f], "transition_function": func}
            norm = _normalizations(c, meas[f])
            if norm is not None:
                spec["normalizations"] = norm
            model["factors"][name] = spec
        if self.controls:
            model["controls"] = list(self.controls)
        if self.observed:
            model["observed_factors"] = list(self.observed)
        self.outcomes = {}
        if c["anch"] != "none":
            for ch in c["anch"]:
                if ch.isdigit():
                    out = "Q" if c["anch"].endswith("same") else f"Q{ch}"
                    self.outcomes[names[int(ch)]] = out
            fl = [ch == "1" for ch in c["flags"]]
            model["anchoring"] = {
                "outcomes": dict(self.outcomes),
                "free_controls": fl[0],
                "free_constant": fl[1],
                "free_loadings": fl[2],
                "ignore_constant_when_anchoring": fl[3],
            }
            if zlib.crc32(repr(sorted(c.items(), key=str)).encode()) % 2:
                # options that have their default value do not have to be written down
                model["anchoring"] = {k: v for k, v in model["anchoring"].items() if v is not False}
        T = c["T"]
        if c["stages"] == "one":
            model["stagemap"] = [0] * (T - 1)
        elif c["stages"] == "two":
            model["stagemap"] = [0] * (T - 2) + [1]
        opts = {}
        if c["mix"] != 1:
            opts["n_mixtures"] = c["mix"]
        if c["scale"] != 2:
            opts["sigma_points_scale"] = c["scale"]
        opts.update(c.get("options", {}))
        model["estimation_options"] = opts
        self.model = model
        self.T = T
        self.meas = meas

    # -------------------------------------------------- panels

    def cells(self):
        """All (period, variable) that enter the likelihood, in period order."""
        out = []
        for t in range(self.T):
            seen = []
            for per in self.meas:
                if t < len(per):
                    for m in per[t]:
                        if m not in seen:
                            seen.append(m)
            for o in self.outcomes.values():
                if o not in seen:
                    seen.append(o)
            out += [(t, m) for m in seen]
        return out

    def variables(self):
        seen = []
        for _, v in self.cells():
            if v not in seen:
                seen.append(v)
        return seen

    def panel(self, histories, ids=None, salt="", extra_cells=None):
        """Long frame; one individual per history (dict cell -> deviating value)."""
        n = len(histories)
        ids = list(range(n)) if ids is None else ids
        cols = {v: np.full(n * self.T, np.nan) for v in self.variables()}
        for t, v in self.cells():
            for i, h in enumerate(histories):
                cols[v][i * self.T + t] = h.get((t, v), base_value(t, v, salt))
        for x in self.controls:
            cols[x] = np.array([val(-1, 1, "ctrl", x, t, ids[i], salt) for i in range(n) for t in range(self.T)])
        for x in self.observed:
            cols[x] = np.array([val(-1, 1, "obsf", x, t, ids[i], salt) for i in range(n) for t in range(self.T)])
        index = pd.MultiIndex.from_product([ids, range(self.T)], names=["id", "period"])
        return pd.DataFrame(cols, index=index)


def base_value(t, v, salt=""):
    return round(val(-1.2, 1.2, "base", t, v, salt), 3)


def alt_value(t, v, salt=""):
    return round(base_value(t, v, salt) + 0.9, 3)


def build(cfg):
    return Built(cfg)


def histories(cells, d, alphabet=("alt", "nan"), limit_cells=None):
    """All individuals whose cells deviate from the base value in at most d places."""
    out = []
    for n in range(d + 1):
        for combo in itertools.combinations(cells, n):
            for choice in itertools.product(alphabet, repeat=n):
                out.append(
                    {cell: (np.nan if ch == "nan" else alt_value(*cell)) for cell, ch in zip(combo, choice)}
                )
    return out


def full_patterns(cells):
    """All 2^n patterns of missing cells."""
    out = []
    for n in range(len(cells) + 1):
        for combo in itertools.combinations(cells, n):
            out.append({cell: np.nan for cell in combo})
    return out


def tree_size(cells, hists):
    """States and transitions of the observation-history tree spanned by the panel."""
    prefixes = {()}
    for h in hists:
        pre = ()
        for cell in cells:
            v = h.get(cell, "base")
            pre = pre + (("nan" if isinstance(v, float) and np.isnan(v) else v),)
            prefixes.add(pre)
    return len(prefixes), len(prefixes) - 1
