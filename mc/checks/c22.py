"""C22: soft clipping bounds the likelihood smoothly and monotonically."""
import itertools
import math

from mc import ref, specs

ID = "C22"
RULE = (
    "(a) soft_clipping on the full product of a value lattice (incl. infinities, huge and tiny values, values at and around the bounds) "
    "x lower bounds x upper bounds x hardnesses x array shapes: closed form, bounds, distance to hard clipping, monotonicity along the "
    "sorted lattice, elementwise action (every element alone gives the same as in the array), slope; (b) every combination of bounds and "
    "hardnesses (given completely, partly or not at all in estimation_options) x models x observation histories, including contributions "
    "of minus infinity: likelihood contributions equal the sum of soft-clipped reference contributions of the single updates.  "
    "states = (setting, value) / (options, history), transitions = comparisons of single elements."
)
BOUNDS = {
    "quick": "33 values x 7 lower x 7 upper bounds x 4x4 hardnesses x 6 shapes; 2 models x 20 option sets and 3 models x 6 option sets x 12 histories",
    "thorough": "the same lattice with 6x6 hardnesses; 8 models x 40 option sets",
}
ASSUMPTIONS = ["lower < upper", "no contribution is NaN (C02 covers missing observations)", "hardness is positive"]

INF = math.inf
VALUES = sorted(
    [-INF, -1e300, -1e250, -1e100, -1e5, -750.0, -101, -100, -99.9, -37, -5, -3.2, -3, -2.9, -1, -0.3, -1e-9, 0, 1e-9, 0.2, 0.5, 0.9, 1, 1.1, 1.5, 2, 2.3, 10, 50, 710, 1e5, 1e250, INF]
)
LOWER = [None, -1e250, -100, -3, -0.3, 0, 0.9]
UPPER = [None, 1e250, 50, 2.3, 1.0, 2, 0.95]
HARD = [0.5, 1, 3, 100]
HARD_DEEP = [0.01, 0.5, 1, 2.5, 30, 1000]
SHAPES = ["n", "n1", "1n", "3k", "3k1", "scalar"]


def cases(tier):
    out = []
    for lh in HARD if tier == "quick" else HARD_DEEP:
        out.append({"label": f"function lower_hardness={lh}", "mode": "function", "lh": lh, "uhs": HARD if tier == "quick" else HARD_DEEP})
    S = specs
    models = [S.MINIMAL, {**S.RICH, "layout": "std"}]
    more = [{**S.MINIMAL, "T": 1}, {**S.PLAIN, "anch": "0", "layout": "std"}, {**S.PLAIN, "layout": "ragged"}]
    if tier == "thorough":
        more += [{**S.RICHLIN, "layout": "std"}, {**S.MINIMAL, "mix": 3}, {**S.PLAIN, "layout": "empty_mid"}]
        models = models + more
        more = []
    for group, sets in ((models, options(tier)), (more, options("few"))):
        for c in group:
            c = S.normalize(c)
            for k in range(0, len(sets), 3):
                out.append({"label": f"likelihood {S.label(c)} options {k}..", "mode": "likelihood", "cfg": c, "sets": sets[k : k + 3]})
    return out


def options(tier):
    names = ["clipping_lower_bound", "clipping_upper_bound", "clipping_lower_hardness", "clipping_upper_hardness"]
    if tier == "few":
        vals = [(-2.5, None, 1, 1), (None, -1.2, 1, 2), (-3, -0.5, 2, 0.7), (-1e250, None, 1, 1), (None, None, 3, 4), (-4, 0, 10, 1)]
    else:
        vals = list(itertools.product([None, -2.5, -1e250, -60], [None, -1.0, 0.5], [1, 4], [0.6] if tier == "quick" else [0.6, 2]))
    out = []
    for v in vals:
        out.append(dict(zip(names, v)))
    # partly specified options
    out += [{}, {"clipping_lower_bound": -2}, {"clipping_upper_bound": -1.5}, {"clipping_lower_bound": -2, "clipping_lower_hardness": 5}]
    out += [{"clipping_upper_bound": -1.5, "clipping_upper_hardness": 5}, {"clipping_lower_hardness": 7}, "absent"]
    return out


DEFAULTS = {"clipping_lower_bound": -1e250, "clipping_upper_bound": None, "clipping_lower_hardness": 1, "clipping_upper_hardness": 1}


def soft(x, lower, upper, lh, uh):
    """Reference in plain floats."""

    def softmax(a, b, h):
        hi, lo = max(a, b), min(a, b)
        if hi == INF or lo == -INF or h * (lo - hi) < -800:
            return hi
        return hi + math.log1p(math.exp(h * (lo - hi))) / h

    if lower is not None:
        x = softmax(x, lower, lh)
    if upper is not None:
        x = -softmax(-x, -upper, uh)
    return x


def run(payload, res):
    {"function": run_function, "likelihood": run_likelihood}[payload["mode"]](payload, res)


def same(a, b):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 + 1e-12 * abs(b)


def run_function(payload, res):
    import jax
    import jax.numpy as jnp
    import numpy as np

    from skillmodels import likelihood_function  # noqa: F401  (switches jax to double precision)
    from skillmodels.clipping import soft_clipping

    base = np.array(VALUES, dtype=float)
    n = len(base)
    lh = payload["lh"]
    for lower, upper in itertools.product(LOWER, UPPER):
        if lower is not None and upper is not None and lower >= upper:
            continue
        for uh in payload["uhs"]:
            want = [soft(x, lower, upper, lh, uh) for x in VALUES]
            where = f"lower={lower} upper={upper} hardness {lh}, {uh}"
            for shape in SHAPES:
                if shape != "n" and (uh != payload["uhs"][0]) and upper is not None:
                    continue
                arr = {"n": base, "n1": base.reshape(-1, 1), "1n": base.reshape(1, -1), "3k": base[: n // 3 * 3].reshape(3, -1), "3k1": base[: n // 3 * 3].reshape(3, -1, 1), "scalar": np.array(base[n // 2])}[shape]
                kwargs = {"lower": lower, "upper": upper, "lower_hardness": lh, "upper_hardness": uh}
                if lower is None:
                    kwargs.pop("lower")
                if upper is None:
                    kwargs.pop("upper")
                got = np.asarray(soft_clipping(jnp.array(arr), **kwargs))
                if not res.check(got.shape == arr.shape, "shape", f"{where}: {arr.shape} becomes {got.shape}"):
                    continue
                flat = got.flatten().tolist()
                exp = want if shape in ("n", "n1", "1n") else want[: n // 3 * 3] if shape != "scalar" else [want[n // 2]]
                for x, g, w in zip(arr.flatten().tolist(), flat, exp):
                    res.check(same(g, w), "value", f"{where} shape {shape}: {x} becomes {g}, expected {w}")
                    res.transitions += 1
                res.states += len(flat)
                res.traces += 1
                if shape != "n":
                    continue
                slack = 1e-9
                # the claims of the statement, independent of the closed form
                for x, g in zip(VALUES, flat):
                    hard = x if lower is None else max(x, lower)
                    hard = hard if upper is None else min(hard, upper)
                    if upper is not None:
                        res.check(g <= upper + slack + 1e-12 * abs(upper), "above", f"{where}: {x} becomes {g}")
                    if lower is not None:
                        give = math.log(2) / uh if upper is not None else 0
                        res.check(g >= lower - give - slack - 1e-12 * abs(lower), "below", f"{where}: {x} becomes {g}")
                    dist = (math.log(2) / lh if lower is not None else 0) + (math.log(2) / uh if upper is not None else 0)
                    if math.isinf(hard):
                        res.check(g == hard, "infinite", f"{where}: {x} becomes {g}")
                    else:
                        res.check(abs(g - hard) <= dist + slack + 1e-12 * abs(hard), "distance", f"{where}: {x} becomes {g}")
                    if lower is None and upper is None:
                        res.check(g == x, "unbounded", f"{where}: {x} becomes {g}")
                for (x0, g0), (x1, g1) in itertools.pairwise(zip(VALUES, flat)):
                    res.check(g1 >= g0 - slack - 1e-12 * abs(g0), "monotone", f"{where}: {x0} becomes {g0}, {x1} becomes {g1}")
                # every element on its own
                if uh == payload["uhs"][-1]:
                    for k in range(0, n, 4):
                        alone = float(soft_clipping(jnp.array([VALUES[k]]), **kwargs)[0])
                        res.check(same(alone, flat[k]), "elementwise", f"{where}: {VALUES[k]} becomes {alone} alone and {flat[k]} in the array")
                    mid = [v for v in VALUES if abs(v) < 200]
                    slope = np.asarray(jax.grad(lambda a: soft_clipping(a, **kwargs).sum())(jnp.array(mid)))
                    res.check(bool(np.isfinite(slope).all() and (slope >= -1e-12).all() and (slope <= 1 + 1e-12).all()), "slope", f"{where}: {slope}")
                    for x, s in zip(mid, slope):
                        ref_slope = 1.0
                        y = x
                        if lower is not None:
                            d = lh * (lower - x)
                            ref_slope *= 1 / (1 + math.exp(min(d, 700)))
                            y = soft(x, lower, None, lh, 1)
                        if upper is not None:
                            d = uh * (y - upper)
                            ref_slope *= 1 / (1 + math.exp(min(d, 700)))
                        res.check(abs(s - ref_slope) < 1e-8, "slope", f"{where}: slope {s} at {x}, expected {ref_slope}")
                        res.transitions += 1
            res.saw([round(w, 6) if abs(w) < 1e6 else str(w) for w in want[8:20]])
    defaults = np.asarray(soft_clipping(jnp.array([-1.0, 2.0]), lower=0.5, upper=3))
    res.close(defaults, [soft(-1, 0.5, 3, 1, 1), soft(2, 0.5, 3, 1, 1)], "defaults", "default hardness")
    res.sample({"lower_hardness": lh, "values": [str(v) for v in VALUES[:5]]})


def run_likelihood(payload, res):
    import copy

    import numpy as np

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    params = params_for(r)
    P = r.parse(as_dict(params))
    cells = b.cells()
    # histories: ordinary, and absurdly large observations whose contribution is minus infinity.  Unless there is only one period
    # and component, only in the last update: what the filter makes of such an observation afterwards is not the clipping's business.
    hist = [{c: specs.val(-1, 1, "c22", i, *map(str, c)) for c in cells} for i in range(6)]
    hist[4] = {c: 12.0 + v for c, v in hist[4].items()}
    hist[5] = {c: -30.0 + v for c, v in hist[5].items()}
    robust = r.M == 1 and b.T == 1
    last = r.updates[-1]
    for k, c in enumerate(cells):
        if robust or c == (last[0], last[1]):
            hist += [{**hist[k % 4], c: 1e200}, {**hist[k % 4], c: -3e180}]
    df = panel(b, hist)
    meas, ctrl, obs, _ = r.arrays(df)
    with np.errstate(all="ignore"):
        out = r.filter(P, meas, ctrl, obs)
    contribs = np.asarray(out["contribs"], dtype=float)
    for opts in payload["sets"]:
        model = copy.deepcopy(b.model)
        given = {} if opts == "absent" else opts
        model.setdefault("estimation_options", {})
        for name in DEFAULTS:
            model["estimation_options"].pop(name, None)
        model["estimation_options"].update(given)
        if opts == "absent" and set(model["estimation_options"]) <= {"bounds_distance"}:
            model.pop("estimation_options")
        full = {**DEFAULTS, **given}
        lo, hi = full["clipping_lower_bound"], full["clipping_upper_bound"]
        lh, uh = full["clipping_lower_hardness"], full["clipping_upper_hardness"]
        got = inputs(model, df)["loglike"](params)
        where = f"options {given}"
        total = 0.0
        usable = extreme = 0
        for i in range(len(hist)):
            col = contribs[:, i]
            value = float(got["contributions"][i])
            if not res.check(not np.isnan(col).any(), "reference", "reference is NaN"):
                continue
            want = sum(soft(float(x), lo, hi, lh, uh) for x in col)
            if np.isfinite(col).all():
                usable += 1
            else:
                extreme += 1
            here = f"{where}: individual {i} with contributions {np.round(col, 3)}"
            if math.isinf(want):
                res.check(value == want, "contribution", f"{here}: {value}, expected {want}")
            else:
                res.close(value, want, "contribution", here, rtol=1e-7, atol=1e-7)
                total += want
            res.states += 1
            res.transitions += len(col)
        res.traces += len(hist)
        if lo is not None:
            res.check(np.isfinite(got["value"]), "value", f"{where}: value {got['value']}")
        res.saw([given, round(total, 5)])
        res.note("ordinary histories", usable)
        res.note("histories with infinite contributions", extreme)
    res.sample({"model": payload["label"], "options": payload["sets"]})


def panel(b, hist):
    import pandas as pd

    rows = []
    for i, h in enumerate(hist):
        for t in range(b.T):
            row = {"id": i, "period": t}
            for v in b.variables():
                row[v] = h.get((t, v), specs.val(-1, 1, "c22x", v, t, i))
            for v in b.observed + b.controls:
                row[v] = specs.val(-1, 1, "c22o", v, t, i)
            rows.append(row)
    return pd.DataFrame(rows).set_index(["id", "period"])
