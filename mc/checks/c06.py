"""C06: parameter frames are matched by label and mismatches are rejected."""
import itertools

from mc import ref, specs

ID = "C06"
RULE = (
    "Per model: (a) every transposition and rotation, the reversal and the sorting of the rows of a generic parameter frame, "
    "crossed with extra columns placed before and after 'value', evaluated by all five likelihood functions (value, "
    "contributions, gradient and jacobian must equal those of the frame in template order), by get_filtered_states and by "
    "simulate_dataset; (b) every frame obtained by removing at most two template rows and adding at most two foreign rows "
    "(near misses of template rows): ValueError naming exactly the removed and added rows; (c) the same values stored in "
    "different ways (the template filled row by row, object, nullable, 32 bit and integer columns, one integer per row "
    "position, a frame that went through a csv file, a 32 bit period level): all functions must give the results of the float "
    "frame. A point is a frame; all are distinct by construction."
)
BOUNDS = {
    "quick": "4 models; all transpositions for the value, all rotations for gradient and jacobian; removed<=2 x added<=2 for loglike, <=1 x <=1 for the other functions",
    "thorough": "all models with <=1 deviation from minimal and 4 rich ones; all transpositions for every function; removed<=2 x added<=2 for every function",
}
ASSUMPTIONS = ["rows are unique", "a row is named in a message by the components of its label"]

MODELS = [
    {**specs.MINIMAL, "nf": 2, "anch": "0", "layout": "one"},
    {**specs.MINIMAL, "mix": 2, "layout": "one", "f0": "log_ces", "obs": 1},
    {**specs.MINIMAL, "f0": "c_names", "controls": 1, "layout": "one", "T": 3},
    {**specs.MINIMAL, "nf": 2, "f1": "constant", "names": "rev", "layout": "one", "anch": "10"},
]


def cases(tier):
    ms = list(MODELS)
    if tier == "thorough":
        ms = specs.union(ms, specs.explore(specs.MINIMAL, 1), [specs.RICH, specs.RICHLIN, specs.PLAIN])
    ms = [c for c in ms if c["T"] > 1]
    out = []
    for c in ms:
        for mode in ("value", "grad", "states", "mismatch", "form"):
            for part in range(4 if mode == "mismatch" else 1):
                out.append({"label": f"{mode}{part} {specs.label(c)}", "cfg": c, "mode": mode, "part": part, "tier": tier})
    return out


def near_misses(labels):
    """Foreign labels that look like template rows."""
    labs = set(labels)
    out = []
    T = 1 + max(x[1] for x in labels)
    c = next(x for x in labels if x[0] == "controls")
    lo = next(x for x in labels if x[0] == "loadings")
    sh = [x for x in labels if x[0] == "shock_sds"][-1]
    out.append(("controls", c[1], c[2], "zz"))
    out.append(("loadings", T, lo[2], lo[3]))
    out.append(("shock_sds", sh[1] + 1, sh[2], "-"))
    out.append(("meas_sds", 0, "zz", "-"))
    out.append(("mixture_weights", 0, "mixture_9", "-"))
    out.append(("foo", 0, "-", "-"))
    out = [x for x in out if x not in labs]
    assert len(out) == 6
    return out


def run(payload, res):
    import numpy as np
    import pandas as pd

    from mc.common import as_dict, inputs, params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    cells = b.cells()
    df = b.panel([{}, {cells[0]: np.nan}, {c: specs.alt_value(*c) for c in cells}])
    mi = inputs(b.model, df)
    index = mi["params_template"].index
    params = params_for(r).reindex(index)
    n = len(index)
    deep = payload["tier"] == "thorough"
    mode = payload["mode"]
    perms = [[(i + k) % n for i in range(n)] for k in range(1, n)]
    perms.append(list(range(n))[::-1])
    perms.append([int(i) for i in np.argsort([str(x) for x in index])])
    trans = []
    for i, j in itertools.combinations(range(n), 2):
        p = list(range(n))
        p[i], p[j] = j, i
        trans.append(p)

    def frames(permlist):
        for k, p in enumerate(permlist):
            f = params.iloc[p]
            if k % 3 == 1:
                f = f.assign(lower_bound=-1.0, comment="a")
            elif k % 3 == 2:
                f = pd.DataFrame({"aaa": 7.0, "value": f["value"], "weight": 2.0})
            yield p, f

    if mode == "value":
        base = mi["loglike"](params)
        res.close(base["contributions"], r.loglike(as_dict(params), df)[0]["total"], "contributions")
        for p, f in frames(perms + trans):
            out = mi["loglike"](f)
            res.close(out["contributions"], base["contributions"], "perm-contributions", f"rows {p}", rtol=1e-12, atol=1e-12)
            res.close(out["value"], base["value"], "perm-value", f"rows {p}", rtol=1e-12)
            res.states += 1
            res.transitions += 1
            res.traces += 1
        res.saw(base["contributions"])
    elif mode == "grad":
        g0, j0 = mi["gradient"](params), mi["jacobian"](params)
        crit0, lg0 = mi["loglike_and_gradient"](params)
        d0 = mi["debug_loglike"](params)
        res.close(lg0, g0, "grad-consistency", rtol=1e-9)
        res.check(np.size(g0) == n and j0.shape[-1] == n, "shape", f"{np.shape(g0)} {np.shape(j0)}")
        for k, (p, f) in enumerate(frames(perms + (trans if deep else []))):
            res.close(mi["gradient"](f), g0, "perm-gradient", f"rows {p}", rtol=1e-10)
            res.close(mi["jacobian"](f), j0, "perm-jacobian", f"rows {p}", rtol=1e-10)
            c, g = mi["loglike_and_gradient"](f)
            res.close(g, lg0, "perm-loglike_and_gradient", f"rows {p}", rtol=1e-10)
            res.close(c["contributions"], crit0["contributions"], "perm-loglike_and_gradient", f"rows {p}", rtol=1e-10)
            if k < 2 or k > len(perms) - 3:
                d = mi["debug_loglike"](f)
                res.close(d["contributions"], d0["contributions"], "perm-debug", f"rows {p}", rtol=1e-10)
                res.close(d["filtered_states"][r.latent], d0["filtered_states"][r.latent], "perm-debug-states", f"rows {p}", rtol=1e-9)
            res.states += 1
            res.transitions += 3
            res.traces += 1
        res.saw(g0)
    elif mode == "states":
        from skillmodels import get_filtered_states, simulate_dataset

        def run_all(f):
            fs = get_filtered_states(b.model, df, f)
            np.random.seed(12)
            si = simulate_dataset(b.model, f, data=df)
            arr = [fs[k]["states"][r.latent].to_numpy(dtype=float) for k in ("anchored_states", "unanchored_states")]
            arr.append(si["measurements"].drop(columns=["id", "period"]).to_numpy(dtype=float))
            arr += [si[k]["states"][r.latent].to_numpy(dtype=float) for k in ("anchored_states", "unanchored_states")]
            return arr

        base = run_all(params)
        sel = perms[: n if deep else 4] + perms[-2:]
        for p, f in frames(sel):
            for k, (a, o) in enumerate(zip(run_all(f), base)):
                res.close(a, o, "perm-states" if k < 2 else "perm-simulation", f"rows {p} output {k}", rtol=1e-10)
            res.states += 1
            res.transitions += 2
            res.traces += 1
        res.saw(base[0])
    elif mode == "form":
        run_forms(b, r, df, mi, params, deep, res)
    else:
        foreign = near_misses(list(index))
        funcs = ["loglike", "gradient", "jacobian", "loglike_and_gradient", "debug_loglike"]
        known = [(lab, norm(tuple(lab))) for lab in list(index) + foreign]
        vals = as_dict(params)
        for nrem in range(3):
            for rem in itertools.combinations(range(n), nrem):
                if sum(rem) % 4 != payload["part"]:
                    continue
                keep = [lab for i, lab in enumerate(index) if i not in rem]
                for nadd in range(3):
                    if nadd + nrem == 0:
                        continue
                    for add in itertools.combinations(foreign, nadd):
                        labs = keep + list(add)
                        f = pd.DataFrame(
                            {"value": [vals.get(x, 0.5) for x in labs]},
                            index=pd.MultiIndex.from_tuples(labs, names=index.names),
                        )
                        want = {tuple(index[i]): "missing" for i in rem} | {x: "additional" for x in add}
                        which = funcs if deep or max(nrem, nadd) <= 1 else funcs[:1]
                        for name in which:
                            check_rejected(mi[name], name, f, want, known, res)
                        res.states += 1
                        res.transitions += len(which)
        res.traces += 1
        res.saw([n, len(foreign)])
        res.sample({"model": payload["label"], "rows": n, "foreign": [str(x) for x in foreign]})


def forms(template, params):
    """(label, float frame, same values stored differently)."""
    import io

    import numpy as np
    import pandas as pd

    generic = pd.DataFrame({"value": params["value"].astype(float)})
    filled = template.copy()
    for lab in template.index:
        filled.loc[[lab], "value"] = generic["value"].loc[lab]
    yield "template filled row by row", generic, filled
    for dtype in ("object", "Float64"):
        yield dtype, generic, generic.astype({"value": dtype})
    short = generic.astype("float32")
    yield "float32", short.astype(float), short
    buffer = io.StringIO()
    generic.to_csv(buffer, float_format="%.17g")
    buffer.seek(0)
    # a csv file does not keep the types of names
    if all(isinstance(name, str) for name in generic.index.get_level_values("name1")):
        yield "csv", generic, pd.read_csv(buffer, float_precision="round_trip").set_index(list(generic.index.names))
    levels = [generic.index.get_level_values(i) for i in range(4)]
    levels[1] = pd.Index(levels[1].to_numpy().astype("int32"))
    yield "int32 period", generic, generic.set_axis(pd.MultiIndex.from_arrays(levels, names=generic.index.names))
    ones = pd.DataFrame({"value": 1.0}, index=generic.index)
    for dtype in ("int64", "int32", "uint8", "Int64", "object"):
        yield f"integers {dtype}", ones, ones.astype(int).astype({"value": dtype})
    for i, lab in enumerate(template.index):
        as_float = generic.copy()
        as_float.iloc[i, 0] = 1.0
        values = as_float["value"].tolist()
        values[i] = 1
        yield f"integer in {lab}", as_float, pd.DataFrame({"value": np.array(values, dtype=object)}, index=template.index)


def run_forms(b, r, df, mi, params, deep, res):
    import numpy as np

    from skillmodels import get_filtered_states, simulate_dataset

    def evaluate(f, label):
        out = mi["loglike"](f)
        crit, lg = mi["loglike_and_gradient"](f)
        got = [out["value"], out["contributions"], crit["contributions"], lg, mi["gradient"](f), mi["jacobian"](f)]
        if deep or not label.startswith("integer in"):
            got.append(mi["debug_loglike"](f)["contributions"])
            fs = get_filtered_states(b.model, df, f)
            got += [fs[k]["states"][r.latent].to_numpy(dtype=float) for k in ("anchored_states", "unanchored_states")]
            if r.M > 1 and label.startswith(("integer", "float32")):
                return got  # the weights do not sum to one
            np.random.seed(12)
            si = simulate_dataset(b.model, f, data=df)
            got.append(si["measurements"].drop(columns=["id", "period"]).to_numpy(dtype=float))
            got += [si[k]["states"][r.latent].to_numpy(dtype=float) for k in ("anchored_states", "unanchored_states")]
        return got

    cache = {}
    for label, base, frame in forms(mi["params_template"], params):
        key = tuple(base["value"])
        if key not in cache:
            cache[key] = evaluate(base, label)
        try:
            got = evaluate(frame, label)
        except Exception as e:  # noqa: BLE001
            res.fail("form-raises", f"{label}: {type(e).__name__} {str(e)[:200]}")
            continue
        for k, (x, y) in enumerate(zip(got, cache[key])):
            res.close(x, y, "form", f"{label} output {k}", rtol=1e-10)
        res.states += 1
        res.transitions += len(got)
        res.traces += 1
        res.saw([label, got[1]])


def norm(s):
    return "".join(ch for ch in str(s) if ch not in " '\"")


def check_rejected(func, name, frame, want, known, res):
    try:
        func(frame)
    except ValueError as e:
        msg = norm(e)
        for lab, text in known:
            named = text in msg
            if not res.check(
                named == (tuple(lab) in want),
                f"mismatch-message:{name}",
                f"{tuple(lab)} is {'not ' if not named else ''}named in the message {str(e)[:300]}; affected rows {want}",
            ):
                return
            if named:
                # the last of the two words before the row says what is wrong with it
                before = msg[: msg.index(text)].lower()
                said = max(("missing", "additional"), key=before.rfind)
                if said in before and not res.check(
                    said == want[tuple(lab)],
                    f"mismatch-message:{name}",
                    f"{tuple(lab)} is {want[tuple(lab)]} and the message calls it {said}: {str(e)[:300]}",
                ):
                    return
    except Exception as e:  # noqa: BLE001
        res.fail(f"mismatch-type:{name}", f"{type(e).__name__} instead of ValueError for {want}: {str(e)[:200]}")
    else:
        res.fail(f"mismatch-accepted:{name}", f"frame with mismatching rows {want} was accepted")
