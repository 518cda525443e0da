"""C07: the likelihood functions agree with each other, call after call."""
import itertools

from mc import ref, specs

ID = "C07"
RULE = (
    "Call sequences: all sequences up to the stated depth over {loglike, gradient, jacobian, loglike_and_gradient, "
    "debug_loglike} x {2 parameter vectors} x {2 interleaved models}, plus environment steps (caller mutates the model dict, "
    "the data, the params frame between calls, the returned objects); every call's result is compared with the reference "
    "semantics (value, contributions, numerical derivative of the reference). First-call orders are explored on freshly "
    "created inputs. Neighbours: every pair of value functions x every parameter x 2 tiny steps (3e-9, 1e-6), every swap of "
    "the labels of two rows. Derivatives: for every configuration the gradient and jacobian (reverse and forward mode) and all "
    "values are compared with each other and with the derivative of the reference likelihood. states = sequence prefixes."
)
BOUNDS = {
    "quick": "depth 3 without debug_loglike, depth 2 with; all ordered pairs of first calls; 7 environment steps x 3 functions (5 thorough) x {before, after first call}; derivatives for <=1 deviation of 7 dimensions from minimal and 3 rich models",
    "thorough": "depth 4 without debug_loglike, depth 3 with; first-call triples; derivatives for <=1 deviation from 4 bases and <=2 structural deviations from minimal",
}
ASSUMPTIONS = ["numerical derivatives of the reference are accurate to 1e-5 relative"]

FUNCS = ["loglike", "gradient", "jacobian", "loglike_and_gradient", "debug_loglike"]
A = {**specs.MINIMAL, "layout": "one", "mix": 2, "obs": 1, "anch": "0"}
# same dimensions as A, different content
B = {**specs.MINIMAL, "layout": "one", "mix": 2, "obs": 1, "anch": "0", "f0": "c_own", "flags": "1111", "names": "rev"}
ENV = ["model", "data_values", "data_columns", "params_values", "outputs", "template", "constraints"]


def cases(tier):
    out = []
    parts = 4 if tier == "quick" else 16
    for p in range(parts):
        out.append({"label": f"sequences part {p}", "mode": "seq", "part": p, "parts": parts, "depth": 3 if tier == "quick" else 4, "debug": False})
    for p in range(parts):
        out.append({"label": f"debug sequences part {p}", "mode": "seq", "part": p, "parts": parts, "depth": 2 if tier == "quick" else 3, "debug": True})
    for first in itertools.permutations(FUNCS, 2 if tier == "quick" else 3):
        out.append({"label": "first calls " + ",".join(first), "mode": "first", "order": list(first)})
    for e in ENV:
        for f in FUNCS if tier == "thorough" else FUNCS[::3] + FUNCS[4:]:
            out.append({"label": f"environment {e} {f}", "mode": "env", "env": e, "func": f})
    for f, g in itertools.product(FUNCS[:1] + FUNCS[3:] if tier == "quick" else FUNCS, repeat=2):
        if tier == "thorough" or f == g or "debug_loglike" not in (f, g):
            out.append({"label": f"neighbours {f} {g}", "mode": "near", "funcs": [f, g]})
    S = specs
    if tier == "quick":
        cfgs = S.explore(S.MINIMAL, 1, ["nf", "f0", "mix", "obs", "controls", "anch", "layout"])
        cfgs = [c for c in cfgs if c["layout"] not in ("ints", "pername", "rev", "empty_last", "one") and c["mix"] < 3 and c["obs"] < 2]
        R = {**S.RICH, "T": 2, "layout": "std"}
        cfgs += [R, {**R, "f1": "log_ces_general", "anch": "10"}, {**R, "f0": "c_states", "layout": "late"}]
    else:
        cfgs = S.union(*[S.explore(X, 1) for X in (S.MINIMAL, S.RICH, S.RICHLIN, S.PLAIN)], S.explore(S.MINIMAL, 2, ["nf", "mix", "anch", "f0", "obs", "layout"]))
    for opts in ({"clipping_lower_bound": -2.0}, {"clipping_upper_bound": -1.0, "clipping_lower_bound": None}):
        cfgs = cfgs + [{**S.MINIMAL, "options": opts}]
    for i, c in enumerate(cfgs):
        out.append({"label": "derivative " + S.label(c), "mode": "deriv", "cfg": c, "fwd": tier == "thorough" or i % 4 == 0})
    return out


class World:
    """One model, its data, and the reference results for two parameter vectors."""

    def __init__(self, cfg, derivative=True, hists=None):
        import numpy as np

        from mc.common import as_dict, inputs, params_for

        b = specs.build(cfg)
        self.b, self.r = b, ref.Ref(b.model)
        cells = b.cells()
        h = hists or [{}, {cells[-1]: np.nan}, {c: specs.alt_value(*c) for c in cells}]
        self.df = b.panel(h)
        self.mi = inputs(b.model, self.df)
        self.index = self.mi["params_template"].index
        arrays = self.r.arrays(self.df)[:3]
        self.params, self.want, self.grad = [], [], []
        for v in range(2):
            p = params_for(self.r, v).reindex(self.index)
            d = as_dict(p)
            self.params.append(p)
            # per update and individual; clipped as documented before aggregating
            self.want.append(self.total(d, arrays))
            if derivative:
                self.grad.append(self.numerical(d, arrays))

    def total(self, d, arrays):
        import numpy as np

        c = self.r.filter(self.r.parse(d), *arrays)["contribs"]
        o = self.r.opts
        lo, up = o["clipping_lower_bound"], o["clipping_upper_bound"]
        if lo is not None:
            h = o["clipping_lower_hardness"]
            c = np.logaddexp(h * lo, h * c) / h
        if up is not None:
            h = o["clipping_upper_hardness"]
            c = -np.logaddexp(-h * up, -h * c) / h
        return c.sum(axis=0)

    def numerical(self, d, arrays):
        import numpy as np

        def f(lab, x):
            return self.total({**d, lab: x}, arrays).sum()

        out = []
        for lab in self.index:
            x, h = d[lab], 1e-3
            d1 = (f(lab, x + h) - f(lab, x - h)) / (2 * h)
            d2 = (f(lab, x + h / 2) - f(lab, x - h / 2)) / h
            out.append((4 * d2 - d1) / 3)
        return np.array(out)

    def verify(self, name, v, out, res, key, label):
        import numpy as np

        def crit(o):
            res.close(o["contributions"], self.want[v], f"{key}:{name}:contributions", label)
            res.close(o["value"], self.want[v].sum(), f"{key}:{name}:value", label)
            res.check(np.isclose(o["value"], o["contributions"].sum(), rtol=1e-10), f"{key}:{name}:sum", f"{label}: value is not the sum of contributions")

        def grad(g):
            res.close(np.squeeze(g), np.squeeze(self.grad[v]), f"{key}:{name}:derivative", label, rtol=1e-5, atol=1e-6)

        if name in ("loglike", "debug_loglike"):
            crit(out)
        elif name in ("gradient", "jacobian"):
            grad(out)
        else:
            crit(out[0])
            grad(out[1])


def run(payload, res):
    {"near": run_near, "seq": run_seq, "first": run_first, "env": run_env, "deriv": run_deriv}[payload["mode"]](payload, res)


def run_seq(payload, res):
    import numpy as np

    worlds = [World(A), World(B)]
    funcs = FUNCS if payload["debug"] else FUNCS[:4]
    acts = [(f, v, w) for f in funcs for v in range(2) for w in range(2)]
    depth = payload["depth"]
    count = 0
    for seq in itertools.product(range(len(acts)), repeat=depth):
        if seq[-1] % payload["parts"] != payload["part"]:
            continue
        if payload["debug"] and not any(acts[i][0] == "debug_loglike" for i in seq):
            continue
        count += 1
        for k, i in enumerate(seq):
            f, v, w = acts[i]
            out = worlds[w].mi[f](worlds[w].params[v])
            # earlier calls of the sequence were compared in the sequences that end there
            worlds[w].verify(f, v, out, res, "sequence", f"step {k} of {[acts[j] for j in seq]}")
        res.states += depth
        res.transitions += depth
        res.traces += 1
    res.note("call sequences", count)
    res.saw([np.round(w.want[v], 8) for w in worlds for v in range(2)])
    res.sample({"sequence": [acts[i] for i in seq]})


def run_first(payload, res):
    wa = World(A)
    wb = World(B)
    for k, f in enumerate(payload["order"]):
        for w in (wa, wb) if k % 2 == 0 else (wb, wa):
            for v in ((0, 1), (1, 0))[k % 2]:
                w.verify(f, v, w.mi[f](w.params[v]), res, "first-call", f"order {payload['order']}")
                res.transitions += 1
                res.states += 1
    res.traces += 1
    res.saw(payload["order"])


def run_near(payload, res):
    """A call at a point that is almost, or looks like, the previous one.

    For every parameter (and all of them together) and every step size the second call is made one tiny step away
    from the first. The change of the value has to be the step times the derivative.

    """
    import numpy as np

    f, g = payload["funcs"]

    def crit(name, out):
        return out[0] if name == "loglike_and_gradient" else out

    def is_grad(name):
        return name in ("gradient", "jacobian")

    for cfg in (A, {**specs.MINIMAL, "layout": "one", "nf": 1}):
        w = World(cfg)
        p = w.params[0]
        n = len(p)
        steps = (3e-9, 1e-6)
        if "debug_loglike" in (f, g):
            which = [n]
        else:
            which = range(n + 1)
        for eps in steps:
            for i in which:
                d = np.ones(n) if i == n else np.eye(n)[i]
                first = w.mi[f](p)
                w.verify(f, 0, first, res, "near-first", f"parameter {i}, step {eps}")
                q = p.copy()
                q["value"] = p["value"].to_numpy() + eps * d
                second = w.mi[g](q)
                w.verify(g, 0, second, res, "near-second", f"parameter {i}, step {eps}") if eps < 1e-8 else None
                res.transitions += 2
                res.states += 2
                res.traces += 1
                if not is_grad(f) and not is_grad(g):
                    want = eps * d @ np.squeeze(w.grad[0])
                    got = crit(g, second)["value"] - crit(f, first)["value"]
                    # rounding of the value, curvature and error of the numerical derivative
                    tol = 1e-12 * max(1, abs(w.want[0].sum())) + eps * (1e-3 * np.abs(d @ np.abs(np.squeeze(w.grad[0]))) + 1e-3)
                    res.check(
                        abs(got - want) <= tol,
                        f"near:{f}:{g}:step",
                        f"parameter {i}: step {eps} changes the value by {got}, derivative says {want}",
                    )
                # and back
                w.verify(f, 0, w.mi[f](p), res, "near-back", f"parameter {i}, step {eps}")
        # the same numbers in the same order, but for other parameters
        labels = list(p.index)
        swaps = [
            (i, j)
            for i, j in itertools.combinations(range(n), 2)
            if labels[i][0] == labels[j][0] and labels[i][0] in ("controls", "loadings", "meas_sds") and p["value"].iloc[i] != p["value"].iloc[j]
        ][:: 1 if "debug_loglike" not in (f, g) else 7]
        arrays = w.r.arrays(w.df)[:3]
        for i, j in swaps:
            lab = list(labels)
            lab[i], lab[j] = lab[j], lab[i]
            q = p.copy()
            q.index = type(p.index).from_tuples(lab, names=p.index.names)
            want = w.total(dict(zip(lab, p["value"])), arrays)
            w.verify(f, 0, w.mi[f](p), res, "swap-first", f"rows {i} and {j}")
            second = w.mi[g](q)
            if not is_grad(g):
                res.close(crit(g, second)["contributions"], want, f"swap:{f}:{g}:contributions", f"labels of rows {i} and {j} are swapped")
                res.close(crit(g, second)["value"], want.sum(), f"swap:{f}:{g}:value", f"labels of rows {i} and {j} are swapped")
            # same parameters in another row order
            q = p.iloc[list(range(i, n)) + list(range(i))]
            w.verify(g, 0, w.mi[g](q), res, "rotated", f"rotated by {i}")
            res.transitions += 3
            res.states += 2
            res.traces += 1
        res.saw([f, g, n, len(swaps)])


def run_env(payload, res):
    import numpy as np

    f, e = payload["func"], payload["env"]
    for first in (False, True):
        w = World(A, derivative="grad" in f or "jac" in f)
        p = [x.copy() for x in w.params]
        if first:
            out = w.mi[f](p[0])
            w.verify(f, 0, out, res, "before", "")
        else:
            out = None
        if e == "model":
            m = w.b.model
            for s in m["factors"].values():
                s["measurements"][0][:] = ["foo"]
                s["measurements"].append(["bar"])
                s["transition_function"] = "constant"
            m["observed_factors"][:] = ["u"]
            m["anchoring"]["outcomes"].clear()
            m["anchoring"]["ignore_constant_when_anchoring"] = True
            m["estimation_options"].update(n_mixtures=1, sigma_points_scale=9, clipping_upper_bound=-50)
            m["factors"]["new"] = {}
        elif e == "data_values":
            for col in w.df.columns:
                w.df[col].to_numpy(copy=False)
                w.df.loc[:, col] = 0.125
        elif e == "data_columns":
            w.df.drop(columns=list(w.df.columns), inplace=True)
            w.df.index.names = ["a", "b"]
        elif e == "params_values":
            keep = p[0]["value"].copy()
            q = p[0]
            q["value"] = p[1]["value"].to_numpy()
            w.verify(f, 1, w.mi[f](q), res, "mutated-params", "frame holds vector 1 now")
            q["value"] = keep.to_numpy()
            q["extra"] = 0
        elif e == "outputs" and out is not None:
            for o in out if isinstance(out, tuple) else [out]:
                items = list(o.values()) if isinstance(o, dict) else [o]
                for x in items:
                    if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
                        x[...] = -99.0
                if isinstance(o, dict):
                    o.clear()
        elif e == "template":
            t = w.mi["params_template"]
            t["value"] = 0.3
            t["lower_bound"] = 5.0
            t.drop(index=list(t.index[:3]), inplace=True)
        elif e == "constraints":
            for c in w.mi["constraints"]:
                c.clear()
            w.mi["constraints"].clear()
        for v in (0, 1):
            w.verify(f, v, w.mi[f](p[v]), res, f"after-{e}", f"first call before the change: {first}")
            res.transitions += 1
        res.states += 2
        res.traces += 1
    res.saw([e, f])


def run_deriv(payload, res):
    import numpy as np

    from mc.common import inputs

    b = specs.build(payload["cfg"])
    cells = b.cells()
    hists = [{}, {cells[0]: np.nan}, {cells[-1]: np.nan}, {c: np.nan for c in cells}, {c: specs.alt_value(*c) for c in cells}]
    w = World(payload["cfg"], hists=hists)
    for v in range(2):
        for f in FUNCS:
            if f == "debug_loglike" and v:
                continue
            w.verify(f, v, w.mi[f](w.params[v]), res, "config", f"variant {v}")
            res.transitions += 1
    if payload["fwd"]:
        m2 = inputs_fwd(b.model, w.df)
        w.verify("jacobian", 0, m2["jacobian"](w.params[0]), res, "jacfwd", "")
    res.states += 1
    res.traces += 1
    res.saw(np.round(w.grad[0], 6))


def inputs_fwd(model, df):
    from skillmodels import get_maximization_inputs

    return get_maximization_inputs(model, df, jacobian_type="jacfwd")
