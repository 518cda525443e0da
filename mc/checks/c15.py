"""C15: transition functions compute their documented formula from named parameters."""
import itertools

from mc import ref, specs

ID = "C15"
RULE = (
    "(a) every assignment of built-in and custom transition functions to 1..3 latent factors x 0..2 observed factors x three "
    "factor namings x two parameter vectors, evaluated on a full grid of states (incl. values beyond the clipping limits of "
    "robust_translog) by the processed model: joint and individual functions against the documented formulas, with every "
    "coefficient addressed by the name that the processed model and the params template give to its position; "
    "(b) custom functions for every subset of {every factor, states} and every argument order x every rotation of the "
    "registered names; (c) every built-in re-expressed as a custom function (every argument order) must give the same joint "
    "transition, template labels and likelihood contributions. states = assignments / signatures, transitions = evaluated grid "
    "points (next-state computations)."
)
BOUNDS = {
    "quick": "assignments: all for <=2 latent factors x 0..2 observed, for 3 latent factors all with at most two different functions; grid of 3 values per factor (2 beyond 4 factors); custom signatures over <=3 factors",
    "thorough": "all assignments for 3 latent factors; grid of 4 values per factor; custom signatures over <=4 factors; equivalence on 1..3 x 0..2 factors",
}
ASSUMPTIONS = ["two generic parameter vectors (positive weights for the CES functions)"]

FUNCS = specs.BUILTIN + specs.CUSTOM


def cases(tier):
    out = []
    for nf in (1, 2, 3):
        for obs in (0, 1, 2):
            combos = list(itertools.product(FUNCS, repeat=nf))
            if nf == 3 and tier == "quick":
                combos = [c for c in combos if len(set(c)) <= 2 and (obs == 1 or FUNCS[0] in c or c[0] == c[2])]
            step = 40
            for i in range(0, len(combos), step):
                out.append({"label": f"assign nf={nf} obs={obs} #{i}", "mode": "assign", "nf": nf, "obs": obs, "combos": [list(c) for c in combos[i : i + step]], "tier": tier})
    for nf, obs in ((1, 0), (1, 1), (2, 0), (2, 1)) + (((3, 0), (3, 1), (2, 2)) if tier == "thorough" else ()):
        out.append({"label": f"signatures nf={nf} obs={obs}", "mode": "signatures", "nf": nf, "obs": obs, "tier": tier})
    for f in specs.BUILTIN:
        for nf, obs in ((1, 0), (2, 0), (2, 1)) + (((3, 0), (3, 2)) if tier == "thorough" else ()):
            out.append({"label": f"equivalent {f} nf={nf} obs={obs}", "mode": "equivalent", "func": f, "nf": nf, "obs": obs, "tier": tier})
    return out


def make_model(factors, observed, functions):
    model = {
        "factors": {
            f: {"measurements": [[f"y{i}a", f"y{i}b"], [f"y{i}a", f"y{i}b"]], "transition_function": fn}
            for i, (f, fn) in enumerate(zip(factors, functions))
        }
    }
    if observed:
        model["observed_factors"] = list(observed)
    return model


def grid(n, tier):
    import numpy as np

    if tier == "thorough" and n <= 4:
        vals = [-1.3, 0.0, 0.7, 1.9]
    else:
        vals = [-1.3, 0.0, 0.7] if n <= 4 else [-1.3, 0.7]
    return np.array(list(itertools.product(vals, repeat=n)))


def extreme(n):
    """States beyond the clipping values of robust_translog, one coordinate at a time."""
    import numpy as np

    rows = []
    for i in range(n):
        for v in (-3e13, 4e13):
            s = np.full(n, 0.5)
            s[i] = v
            rows.append(s)
    return np.array(rows)


def named_values(names, period, factor, variant):
    return {n: specs.param_value(("transition", period, factor, n), variant) for n in names}


def compare(model, factors, allf, functions, res, tier, variants=(0, 1), where=""):
    import numpy as np

    from skillmodels.process_model import process_model

    info = process_model(model)["transition_info"]
    S = grid(len(allf), tier)
    X = extreme(len(allf)) if "robust_translog" in functions else S[:0]
    for f, fn in zip(factors, functions):
        want = ref.trans_param_names(fn, allf)
        if not res.check(list(info["param_names"][f]) == want, "param-names", f"{where} {f}: {info['param_names'][f]}, documented {want}"):
            return None
    out = None
    for variant in variants:
        vals = {f: named_values(info["param_names"][f], 0, f, variant) for f in factors}
        # positions are bound to names by the processed model
        params = {f: np.array([vals[f][n] for n in info["param_names"][f]], dtype=float) for f in factors}
        want = np.stack([ref.trans_value(fn, f, allf, S, vals[f]) + np.zeros(len(S)) for f, fn in zip(factors, functions)], axis=-1)
        got = np.asarray(info["func"](params, S))
        if not res.close(got, want, "joint", f"{where} {functions} variant {variant}", rtol=1e-9):
            return None
        for j, (f, fn) in enumerate(zip(factors, functions)):
            one = np.asarray(info["individual_functions"][f](params, S))
            res.close(one, want[:, j], "individual", f"{where} {f}={fn} variant {variant}", rtol=1e-9)
            if fn == "robust_translog" and len(X):
                wx = ref.trans_value(fn, f, allf, X, vals[f])
                res.close(np.asarray(info["individual_functions"][f](params, X)), wx, "clipped", f"{where} {f}", rtol=1e-9)
        res.transitions += len(S) + len(X)
        out = got
    res.states += 1
    res.traces += 1
    return out


def run(payload, res):
    {"assign": run_assign, "signatures": run_signatures, "equivalent": run_equivalent}[payload["mode"]](payload, res)


def run_assign(payload, res):
    import numpy as np

    for naming in specs.NAMES:
        if naming != "abc" and payload["nf"] == 3:
            continue
        factors, observed = specs.NAMES[naming][: payload["nf"]], specs.OBSERVED[: payload["obs"]]
        allf = factors + observed
        for combo in payload["combos"]:
            # functions that take factors as arguments need factor names that can be names of arguments
            if not all(f.isidentifier() for f in factors) and {"c_names", "c_own"} & set(combo):
                continue
            fns = [k if k in specs.BUILTIN else specs.custom_function(k, f, allf) for k, f in zip(combo, factors)]
            got = compare(make_model(factors, observed, fns), factors, allf, fns, res, payload["tier"], where=f"{naming} {combo}")
            if got is None:
                return
            res.saw(np.round(got[:4], 8))
    res.sample({"case": payload["label"], "assignment": combo, "next states at first grid point": got[0].tolist()})


def custom(args, order, names, rule, name="custom"):
    """A function with the given argument order; rule maps (values, params) to the result."""
    ns = {"rule": rule}
    inner = ", ".join(f"'{a}': {a}" for a in args if a != "params")
    exec(f"def {name}({', '.join(order)}):\n    return rule({{{inner}}}, params)\n", ns)
    from skillmodels.decorators import register_params

    return register_params(params=list(names))(ns[name])


def run_signatures(payload, res):
    import numpy as np

    factors, observed = specs.NAMES["abc"][: payload["nf"]], specs.OBSERVED[: payload["obs"]]
    allf = factors + observed
    possible = allf + ["states"]
    done = None
    for n in range(1, len(possible) + 1):
        for subset in itertools.combinations(possible, n):
            args = list(subset) + ["params"]
            for order in itertools.permutations(args):
                if len(args) > 4 and order != tuple(args) and order != tuple(reversed(args)) and payload["tier"] == "quick":
                    continue
                base = ["w_" + a for a in subset] + ["bias"]
                rots = [base[k:] + base[:k] for k in range(len(base))] if len(args) <= 3 else [base, base[::-1]]
                for names in rots:

                    def rule(v, p, subset=subset):
                        out = p["bias"]
                        for a in subset:
                            x = v[a]
                            # the state vector enters asymmetrically
                            y = sum((i + 1) * x[..., i] for i in range(len(allf))) if a == "states" else x + 0.1 * x**2
                            out = out + p["w_" + a] * y
                        return out

                    fn = custom(args, order, names, rule)

                    def reference(col, p, rule=rule):
                        v = dict(col)
                        v["states"] = np.stack([col[f] for f in allf], axis=-1)
                        return rule(v, p)

                    fn._mc_kind = ("fn", reference)
                    fns = [fn] + ["linear"] * (len(factors) - 1)
                    # the custom function sits at the last factor
                    fns = fns[::-1]
                    done = compare(make_model(factors, observed, fns), factors, allf, fns, res, "quick", variants=(0,), where=f"def f{order}, registered {names}")
                    if done is None:
                        return
                    res.saw(np.round(done[:3], 8))
    res.sample({"case": payload["label"], "last signature": str(order), "registered": names})


def run_equivalent(payload, res):
    import jax.numpy as jnp
    import numpy as np

    from mc.common import inputs
    from skillmodels.process_model import process_model

    kind = payload["func"]
    factors, observed = specs.NAMES["rev"][: payload["nf"]], specs.OBSERVED[: payload["obs"]]
    allf = factors + observed
    target = factors[-1]
    names = ref.trans_param_names(kind, allf)

    def rule(v, p):
        if kind == "constant":
            return v[target]
        if kind.startswith("log_ces"):
            slope = (lambda f: p["phi"]) if kind == "log_ces" else (lambda f: p[f"sigma_{f}"])
            s = sum(p[f] * jnp.exp(slope(f) * v[f]) for f in allf)
            return jnp.log(s) / p["phi"] if kind == "log_ces" else jnp.log(s) * p["tfp"]
        out = p["constant"]
        for i, a in enumerate(allf):
            out = out + p[a] * v[a]
            if kind != "linear":
                out = out + p[f"{a} ** 2"] * v[a] ** 2
            if "translog" in kind:
                for b in allf[i + 1 :]:
                    out = out + p[f"{a} * {b}"] * v[a] * v[b]
        return out

    others = ["linear"] * (len(factors) - 1)
    built = make_model(factors, observed, others + [kind])
    args = ([target] if kind == "constant" else list(allf)) + ["params"]
    orders = list(itertools.permutations(args))
    if payload["tier"] == "quick":
        orders = orders[:: max(1, len(orders) // 3)]
    rng = [{}, {(0, "y0a"): np.nan}]
    cells = [(t, f"y{i}{x}") for t in (0, 1) for i in range(len(factors)) for x in "ab"]
    rows = []
    for i, h in enumerate(rng + [{c: specs.alt_value(*c) for c in cells}]):
        for t in (0, 1):
            row = {v: h.get((t, v), specs.base_value(t, v)) for tt, v in cells if tt == t}
            row.update({o: specs.val(-1, 1, "obsf", o, t, i) for o in observed})
            rows.append({"id": i, "period": t, **row})
    import pandas as pd

    df = pd.DataFrame(rows).set_index(["id", "period"])
    mi = inputs(built, df)
    idx = mi["params_template"].index
    params = specs.make_params(idx, 0)
    base = np.asarray(mi["loglike"](params)["contributions"])
    info_b = process_model(built)["transition_info"]
    S = grid(len(allf), "quick")
    pv = {f: np.array([specs.param_value(("transition", 0, f, n)) for n in info_b["param_names"][f]]) for f in factors}
    want = np.asarray(info_b["func"](pv, S))
    for k, order in enumerate(orders):
        # the documentation names the custom function like the built-in it replaces; also another name
        for fname in (kind, "my_function") if kind != "log_ces" else ("my_function",):
            fn = custom(args, order, names, rule, fname)
            model = make_model(factors, observed, others + [fn])
            info = process_model(model)["transition_info"]
            res.check(list(info["param_names"][target]) == names, "equivalent-names", f"{info['param_names'][target]}")
            res.close(np.asarray(info["func"](pv, S)), want, "equivalent-joint", f"{kind} as def {fname}{order}", rtol=1e-9)
            res.transitions += len(S)
            res.states += 1
            if k == 0 or k == len(orders) - 1:
                mi2 = inputs(model, df)
                res.check(list(mi2["params_template"].index) == list(idx), "equivalent-template", f"{kind} as {fname}: template labels differ")
                if list(mi2["params_template"].index) == list(idx):
                    res.close(np.asarray(mi2["loglike"](params)["contributions"]), base, "equivalent-likelihood", f"{kind} as def {fname}{order}", rtol=1e-9)
                    if fname == kind:
                        a, b = strip(mi["constraints"]), strip(mi2["constraints"])
                        res.check(a == b, "equivalent-constraints", f"{kind}: constraints differ")
                res.traces += 3
    res.saw(np.round(base, 8))
    res.sample({"case": payload["label"], "orders": len(orders), "contributions": base.tolist()})


def strip(constraints):
    return sorted(str(sorted((k, str(v)) for k, v in c.items() if k != "description")) for c in constraints)
