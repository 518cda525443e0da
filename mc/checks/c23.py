"""C23: distribution plots show the requested factors, period and scenarios."""
import itertools

from mc import ref, specs

ID = "C23"
RULE = (
    "(a) models with up to three latent and two observed factors x every period x every way of passing the states (none, one frame, "
    "lists and dicts of one to three frames; sorted, reversed, shuffled rows; surplus columns) x every layout of the data (row orders, "
    "identifier and period labels, surplus columns named like a latent factor or 'period') x every ordered subset of the factors and "
    "the two defaults: keys, titles and the numbers in every univariate density (curve, histogram, rug, normal), contour and surface "
    "are compared with kernel densities of the reference selection; (b) combine_distribution_plots for every permutation of every "
    "subset of the factors x with and without surfaces x sharing, mappings, legends: contents and titles of every cell.  "
    "states = requests, transitions = figures compared."
)
BOUNDS = {
    "quick": "eight models (11 periods and odd names among them); all ordered subsets of <=2 factors and three orders of all factors (one data layout, three ways of passing states), defaults and reversed order for all others; 5 individuals; up to 3 scenarios; combinations of up to 3 factors",
    "thorough": "all models with 1-3 latent and 0-2 observed factors; all ordered subsets; combinations of up to 4 factors",
}
ASSUMPTIONS = [
    "the kernel density is scipy's default Gaussian kernel (Scott's rule)",
    "at most ten scenarios (the palette has ten colors) and scenario names are strings or numbers",
    "no factor is constant or collinear with another within a scenario and period",
]
N = 5
LAYOUTS = ["plain", "reversed", "labels", "surplus", "text", "gappy"]
FORMS = ["none", "frame", "frame_rev", "frame_shuf", "list1", "list2", "dict1", "dict2", "dict3"]


def configs(tier):
    base = {**specs.PLAIN, "layout": "std", "norm": "first"}
    if tier == "quick":
        dims = [(1, 0, 1), (1, 2, 2), (2, 0, 2), (2, 1, 3), (3, 0, 2), (2, 2, 2)]
    else:
        dims = [(nf, obs, T) for nf in (1, 2, 3) for obs in (0, 1, 2) for T in (1, 2, 3)]
    out = []
    for k, (nf, obs, T) in enumerate(dims):
        c = {**base, "nf": nf, "obs": obs, "T": T, "names": ["abc", "rev", "sub"][k % 3], "mix": 1 + k % 2, "anch": ["none", "0"][k % 2]}
        if nf == 1:
            c["f1"] = "linear"
        c = specs.normalize(c)
        assert specs.valid(c)
        out.append(c)
    out.append({**base, "nf": 1, "f1": "linear", "obs": 1, "T": 11})
    out.append({**base, "nf": 2, "f1": "linear", "obs": 1, "T": 2, "names": "odd"})
    return out


def cases(tier):
    out = []
    for c in configs(tier):
        for form in FORMS:
            out.append({"label": f"{specs.label(c)} states={form}", "mode": "plots", "cfg": c, "form": form, "full": tier == "thorough"})
    for n in range(1, 4 if tier == "quick" else 5):
        parts = {1: 1, 2: 1, 3: 3, 4: 16}[n]
        for p in range(parts):
            out.append({"label": f"combine {n} factors {p}/{parts}", "mode": "combine", "n": n, "part": p, "parts": parts})
    return out


def run(payload, res):
    {"plots": run_plots, "combine": run_combine}[payload["mode"]](payload, res)


def kde(values, at):
    """Gaussian kernel density of (d, n) values at (d, m) points, bandwidth by Scott's rule."""
    import numpy as np

    values, at = np.atleast_2d(values), np.atleast_2d(at)
    d, n = values.shape
    cov = np.atleast_2d(np.cov(values)) * n ** (-2.0 / (d + 4))
    prec = np.linalg.inv(cov)
    diff = at[:, None, :] - values[:, :, None]
    quad = np.einsum("anm,ab,bnm->nm", diff, prec, diff)
    return np.exp(-0.5 * quad).sum(axis=0) / (n * np.sqrt(np.linalg.det(2 * np.pi * cov)))


def value(key, fac, t, i):
    return specs.val(-1, 1, "c23", key, fac, t, i) + 3 * t


def make_data(b, layout):
    """The estimation data and a dictionary (factor, t, i) -> value of the observed factors."""
    import pandas as pd

    rows, truth = [], {}
    for i in range(N):
        for t in range(b.T):
            row = {"id": i, "period": t}
            for v in list(b.variables()) + b.observed + b.controls:
                row[v] = specs.val(-1, 1, "c23data", v, t, i) + (2 * t if v in b.observed else 0)
            for f in b.observed:
                truth[(f, t, i)] = row[f]
            if layout == "surplus":
                for f in b.factors:
                    row[f] = specs.val(50, 60, "c23extra", f, t, i)
                row["scenario"] = "x"
                row["index"] = 1
            rows.append(row)
    names = ["id", "period"]
    if layout == "reversed":
        rows = rows[::-1]
    if layout == "labels":
        names = ["child", "wave"]
        rows = [{**r, "child": 100 + 3 * r.pop("id"), "wave": 7 + 2 * r.pop("period")} for r in rows]
        rows = rows[1::2] + rows[::2]
    if layout == "text":
        rows = [{**r, "id": "pqrst"[r["id"]]} for r in rows][::-1]
    if layout == "gappy":
        # one individual less in measurements; period labels shifted down
        rows = [{**r, "period": r["period"] - 5} for r in rows]
    df = pd.DataFrame(rows).set_index(names)
    return df, truth


def state_frame(b, key, order):
    import pandas as pd

    rows = []
    for i in range(N):
        for t in range(b.T):
            rows.append({"mixture": 0, "id": i, "period": t, **{f: value(key, f, t, i) for f in b.factors}})
    df = pd.DataFrame(rows)
    if order == "rev":
        df = df.iloc[::-1]
    elif order == "shuf":
        df = df.sort_values(["period", "id"], ascending=[False, True])
        df.index = df["id"].to_numpy()
        df = df[sorted(df.columns)]
    return df


def ordered_subsets(items, full):
    out = []
    for n in range(1, len(items) + 1):
        if full or n <= 2 or n == len(items):
            perms = list(itertools.permutations(items, n))
            if n > 2 and not full:
                perms = [perms[0], perms[-1], perms[len(perms) // 2]]
            out += [list(p) for p in perms]
    return out


def run_plots(payload, res):
    import warnings

    import numpy as np

    from mc.common import as_dict, params_for
    from skillmodels import visualize_factor_distributions as vis

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    params = params_for(r)
    P = r.parse(as_dict(params))
    form = payload["form"]
    keys = {"none": None, "frame": "none", "frame_rev": "none", "frame_shuf": "none", "list1": [0], "list2": [0, 1], "dict1": ["only"], "dict2": ["zz", "aa"], "dict3": ["c", "a", "b"]}[form]

    def passed():
        if form == "none":
            return None
        if form.startswith("frame"):
            return state_frame(b, "none", form[6:])
        frames = {k: state_frame(b, k, ["", "rev", "shuf"][n]) for n, k in enumerate(keys)}
        return list(frames.values()) if form.startswith("list") else frames

    layouts = ["plain", "labels", "surplus"] if form == "none" else LAYOUTS
    for layout in layouts:
        df, truth = make_data(b, layout)
        if form == "none":
            # the layout makes no difference (C09)
            meas, ctrl, obs, _ = r.arrays(make_data(b, "plain")[0])
            filt = r.filter(P, meas, ctrl, obs)["filtered"]
            L = len(r.latent)
            anchored = {t: P["const"][t, :L] + P["scale"][t, :L] * filt[t] for t in range(b.T)}
        names = ["none"] if form in ("none", "frame", "frame_rev", "frame_shuf") else keys

        def want(fac, t, scen):
            if fac in b.observed:
                return np.array([truth[(fac, t, i)] for i in range(N)])
            if form == "none":
                return anchored[t][:, r.latent.index(fac)]
            return np.array([value(scen, fac, t, i) for i in range(N)])

        requests = [(None, False), (None, True)]
        if form == "none":
            mixed = (b.factors[::-1] + b.observed[:1], False)
            requests = {"plain": [(None, True), mixed], "labels": [mixed], "surplus": [(None, False)]}[layout] if not payload["full"] else requests + [mixed]
        elif (layout == "plain" and form in ("frame", "frame_shuf", "dict2")) or payload["full"]:
            requests += [(s, False) for s in ordered_subsets(r.allf, payload["full"])] + [(r.allf[::-1], True)]
        elif layout != "gappy":
            requests = [(None, len(form) % 2 == 0), (r.allf[::-1], False), (r.allf[-1:], False)]
        for t in range(b.T) if b.T < 5 else (2, b.T - 1):
            for factors, observed in requests:
                expected = factors if factors is not None else (r.allf if observed else r.latent)
                where = f"{layout} period {t} factors {factors} observed_factors={observed}"
                period = {0: t, 1: float(t), 2: np.int64(t)}[len(expected) % 3]
                common = {"data": df, "model_dict": b.model, "params": params, "period": period, "observed_factors": observed}
                if factors is not None:
                    common["factors"] = list(factors)
                opts = [{}]
                if layout == "plain" and (factors is None or payload["full"]):
                    opts += [{"show_hist": True, "show_rug": True, "bin_size": 0.5}, {"curve_type": "normal"}, {"show_hist": True, "show_curve": False}]
                if form == "none":
                    opts = opts[1:2] if t == 0 and len(opts) > 1 else opts[:1]
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    for opt in opts:
                        figs = vis.univariate_densities(states=passed(), **common, **opt)
                        res.states += 1
                        check_univariate(res, figs, expected, t, names, want, opt, where + f" {opt}")
                    figs = vis.bivariate_density_contours(states=passed(), n_points=4, **common)
                    res.states += 1
                    check_bivariate(res, figs, expected, t, names, want, where, "contour")
                    if len(names) == 1 and form in ("none", "frame", "frame_rev", "frame_shuf"):
                        figs = vis.bivariate_density_surfaces(states=passed(), n_points=3, **common)
                        res.states += 1
                        check_bivariate(res, figs, expected, t, names, want, where, "surface")
    if form.startswith(("list", "dict")):
        try:
            vis.bivariate_density_surfaces(states=passed(), data=df, model_dict=b.model, params=params, period=0)
            res.fail("surface-scenarios", "surfaces for several scenarios are not rejected")
        except ValueError:
            pass
    res.sample({"model": payload["label"], "layouts": layouts})


def near(a, b, scale=1.0):
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-5 * scale, equal_nan=False)


def by_name(traces, names, res, where):
    got = {}
    for d in traces:
        got.setdefault(str(d.name), []).append(d)
    ok = res.check(sorted(got) == sorted(map(str, names)) and all(len(v) == 1 for v in got.values()), "scenarios", f"{where}: traces {sorted(got)}, expected {list(map(str, names))}")
    return {k: v[0] for k, v in got.items()} if ok else {}


def check_univariate(res, figs, expected, t, names, want, opt, where):
    import numpy as np

    res.check(set(figs) == set(expected), "plots", f"{where}: plots for {sorted(figs)}")
    for fac in expected:
        if fac not in figs:
            continue
        fig = figs[fac]
        here = f"{where}: {fac}"
        res.check(fig.layout.xaxis.title.text == fac, "title", f"{here} is titled {fig.layout.xaxis.title.text}")
        kinds = {"histogram": [], "curve": [], "rug": []}
        for d in fig.data:
            kind = "histogram" if d.type == "histogram" else "rug" if len(d.x) == N else "curve"
            kinds[kind].append(d)
        asked = {"histogram": opt.get("show_hist", False), "curve": opt.get("show_curve", True), "rug": opt.get("show_rug", False)}
        for kind, on in asked.items():
            traces = by_name(kinds[kind], names if on else [], res, f"{here} {kind}")
            if on and not traces:
                continue
            for scen in names if on else []:
                d, vals = traces[str(scen)], want(fac, t, scen)
                x = np.asarray(d.x, dtype=float)
                if kind == "curve":
                    y = np.asarray(d.y, dtype=float)
                    if opt.get("curve_type") == "normal":
                        mu, sd = vals.mean(), vals.std()
                        exp = np.exp(-0.5 * ((x - mu) / sd) ** 2) / (sd * np.sqrt(2 * np.pi))
                    else:
                        exp = kde(vals, x)
                    res.check(near(y, exp, exp.max()), "density", f"{here} scenario {scen}: density differs from the one of {np.round(vals, 3)}")
                    spread = vals.max() - vals.min()
                    res.check(abs(x.min() - vals.min()) < 0.05 * spread and abs(x.max() - vals.max()) < 0.05 * spread, "range", f"{here} scenario {scen}: {x.min()}, {x.max()} for values {vals}")
                else:
                    res.check(near(np.sort(x), np.sort(vals)), kind, f"{here} scenario {scen}: {np.sort(x)} for values {np.sort(vals)}")
                res.transitions += 1
        res.traces += 1
        if len(res.outcomes) < 60 and kinds["curve"]:
            res.saw(np.round(np.asarray(kinds["curve"][0].y, dtype=float)[:3], 6))


def check_bivariate(res, figs, expected, t, names, want, where, kind):
    import numpy as np

    pairs = list(itertools.permutations(expected, 2))
    res.check(set(figs) == set(pairs), kind + "-plots", f"{where}: {kind} for {sorted(figs)}")
    for pair in pairs:
        if pair not in figs:
            continue
        fig = figs[pair]
        here = f"{where}: {kind} {pair}"
        titles = (fig.layout.xaxis.title.text, fig.layout.yaxis.title.text)
        if kind == "surface":
            titles = (fig.layout.scene.xaxis.title.text, fig.layout.scene.yaxis.title.text)
        res.check(titles == pair, kind + "-title", f"{here} is titled {titles}")
        if not res.check(len(fig.data) == len(names), kind + "-scenarios", f"{here}: {len(fig.data)} traces for scenarios {names}"):
            continue
        if kind == "contour":
            # the scenarios have no other distinguishing mark
            res.check(len({d.line.color for d in fig.data}) == len(names), "contour-colors", f"{here}: {[d.line.color for d in fig.data]} for scenarios {names}")
        for d, scen in zip(fig.data, names):
            a, c = want(pair[0], t, scen), want(pair[1], t, scen)
            x, y, z = (np.asarray(v, dtype=float) for v in (d.x, d.y, d.z))
            if kind == "contour":
                # z[i][j] is drawn at (x[j], y[i])
                ok = x.ndim == 1 and y.ndim == 1 and z.shape == (len(y), len(x))
                if ok:
                    x, y = np.meshgrid(x, y)
            else:
                # surfaces take one- or two-dimensional coordinates
                if x.ndim == 1 and y.ndim == 1:
                    x, y = np.meshgrid(x, y)
                ok = x.shape == y.shape == z.shape
            if not res.check(ok, kind + "-shape", f"{here}: shapes {x.shape} {y.shape} {z.shape}"):
                continue
            exp = kde(np.vstack([a, c]), np.vstack([x.ravel(), y.ravel()])).reshape(x.shape)
            res.check(near(z, exp, exp.max()), kind, f"{here} scenario {scen}: density differs from the one of {np.round(a, 3)}, {np.round(c, 3)}")
            box = (x.min(), x.max(), y.min(), y.max())
            res.check(near(box, (a.min(), a.max(), c.min(), c.max())), kind + "-range", f"{here} scenario {scen}: {box}")
            res.transitions += 1
        res.traces += 1


# ------------------------------------------------------------------ combined figures


def run_combine(payload, res):
    import numpy as np
    import plotly.graph_objects as go

    from skillmodels.visualize_factor_distributions import combine_distribution_plots

    factors = ["fb", "fa", "zc", "obs"][: payload["n"]]
    pos = {f: k for k, f in enumerate(factors)}

    def kde_plot(f):
        fig = go.Figure()
        for s in range(2):
            fig.add_trace(go.Scatter(x=[pos[f], pos[f] + 1], y=[10 + s, 20 + pos[f]], name=f"s{s}", mode="lines"))
        fig.update_layout(xaxis_title=f, yaxis_title="Density")
        return fig

    def contour_plot(p):
        fig = go.Figure()
        for s in range(2):
            fig.add_trace(go.Contour(x=[1, 2], y=[3, 4], z=[[pos[p[0]], pos[p[1]]], [s, 9]], name=f"s{s}"))
        fig.update_xaxes(title={"text": p[0]})
        fig.update_yaxes(title={"text": p[1]})
        return fig

    def surface_plot(p):
        fig = go.Figure(go.Surface(x=[1, 2], y=[3, 4], z=[[pos[p[0]], pos[p[1]]], [5, 9]]))
        fig.update_layout(scene={"xaxis": {"title": p[0]}, "yaxis": {"title": p[1]}})
        return fig

    pairs = list(itertools.permutations(factors, 2))
    kdes = {f: kde_plot(f) for f in factors}
    contours = {p: contour_plot(p) for p in pairs[::-1]}
    surfaces = {p: surface_plot(p) for p in pairs}
    requests = [(None, True, {}), (None, False, {}), (factors[-1], True, {})]
    for n in range(1, len(factors) + 1):
        for perm in itertools.permutations(factors, n):
            requests += [(list(perm), True, {}), (list(perm), False, {})]
    for kw in (
        {"sharex": True},
        {"sharey": True},
        {"sharex": True, "sharey": True},
        {"showlegend": True},
        {"factor_mapping": {factors[0]: "First"}},
        {"factor_mapping": {f: f"Factor {f}" for f in factors[::-1]}},
        {"line_width": 4},
        {"eye_x": 5, "eye_z": 3},
        {"layout_kwargs": {"width": 777}},
        {"make_subplot_kwargs": {"horizontal_spacing": 0.01}},
        {"title_kwargs": {"text": "A title"}},
    ):
        requests += [(None, True, kw), (factors[::-1], False, kw)]
    for order, surf, kw in requests[payload["part"] :: payload["parts"]]:
        where = f"order {order} surfaces {surf} {kw}"
        mapping = kw.get("factor_mapping", {})
        args = dict(kw)
        if mapping:
            args["factor_mapping"] = dict(mapping)
        fig = combine_distribution_plots(kdes, contours, surfaces if surf else None, factor_order=order, **args)
        show = factors if order is None else [order] if isinstance(order, str) else order
        total = 0
        for r_, rowf in enumerate(show):
            for c_, colf in enumerate(show):
                sub = fig.get_subplot(r_ + 1, c_ + 1)
                here = f"{where}: row {rowf}, column {colf}"
                if c_ > r_:
                    scene = sub.plotly_name
                    mine = [d for d in fig.data if d.type == "surface" and (d.scene or "scene") == scene]
                    want = [surfaces[(colf, rowf)].data[0]] if surf else []
                    got = [np.asarray(d.z).tolist() for d in mine]
                    res.check(got == [np.asarray(d.z).tolist() for d in want], "surface-cell", f"{here} shows {got}")
                    if surf:
                        eye = sub.camera.eye
                        exp = (kw.get("eye_x", 2.2), kw.get("eye_y", 2.2), kw.get("eye_z", 1))
                        res.check((eye.x, eye.y, eye.z) == exp, "camera", f"{here}: {eye}")
                    total += len(want)
                    res.transitions += 1
                    continue
                xa, ya = sub.xaxis.plotly_name, sub.yaxis.plotly_name
                mine = [d for d in fig.data if d.type != "surface" and (d.xaxis or "x").replace("x", "xaxis") == xa and (d.yaxis or "y").replace("y", "yaxis") == ya]
                want = kdes[rowf].data if r_ == c_ else contours[(colf, rowf)].data
                total += len(want)

                def content(d):
                    return (d.type, str(d.name), np.asarray(d.x).tolist(), np.asarray(d.y).tolist(), np.asarray(d.z).tolist() if d.type == "contour" else None)

                got, exp = sorted(map(content, mine), key=str), sorted(map(content, want), key=str)
                res.check(got == exp, "cell", f"{here} shows {got}, expected {exp}")
                xt = mapping.get(colf, colf)
                yt = "Density" if r_ == c_ else mapping.get(rowf, rowf)
                res.check((sub.xaxis.title.text, sub.yaxis.title.text) == (xt, yt), "cell-title", f"{here} is titled {sub.xaxis.title.text}, {sub.yaxis.title.text}")
                res.check(all(d.line.width == kw.get("line_width", 1.5) for d in mine), "width", f"{here}: {[d.line.width for d in mine]}")
                res.transitions += 1
        res.check(len(fig.data) == total, "surplus", f"{where}: {len(fig.data)} traces, expected {total}")
        res.check(bool(fig.layout.showlegend) == kw.get("showlegend", False), "legend", where)
        if "layout_kwargs" in kw:
            res.check(fig.layout.width == 777, "layout", where)
        if "title_kwargs" in kw:
            res.check(fig.layout.title.text == "A title", "title", where)
        res.states += 1
        res.traces += 1
        res.saw([order, surf, sorted(kw)])
    res.sample({"case": payload["label"], "requests": len(requests)})
