"""C19: transition plots draw the estimated transition function."""
import itertools

from mc import ref, specs

ID = "C19"
RULE = (
    "(a) every model configuration within one deviation of several bases (functions, factors, observed factors, anchoring, flags, "
    "mixtures, stages, layouts, names) x every admissible period x several settings of quantiles / averaging / explicit state ranges "
    "/ grid sizes: every line of every plot is compared with the reference transition function of that period on the reference "
    "state range with the reference quantiles of the reference filtered states; averaging is explored over all answers of the random "
    "choice for one and two draws and must be one of the finitely many admissible curves; (b) combine_transition_plots for every "
    "permutation of every subset of rows and columns, default orders, missing plots, mappings and sharing options, with "
    "distinguishable plots: contents and titles of every cell.  states = (model, period, setting) / arrangements, transitions = curves."
)
BOUNDS = {
    "quick": "<=1 deviation from plain, rich (obs, mix, anch) and minimal, 2 of the special models; 5 individuals; draws 1, 2 and all; combinations of up to 3 outputs x 3 inputs in all permutations of all subsets, of 3 x 4 in all permutations of all and of single rows and columns",
    "thorough": "<=2 deviations from plain and rich; combinations: all permutations of all subsets of rows and columns",
}
ASSUMPTIONS = [
    "periods have measurements; factors vary across individuals",
    "quantiles are linearly interpolated order statistics",
    "the curve over a factor without variation in the period is not decided",
]

BASE = {**specs.PLAIN, "layout": "std", "obs": 1, "T": 3}
RICH = {**specs.RICH, "layout": "std", "anch": "01"}
DIMS = ["nf", "T", "f0", "f1", "mix", "obs", "anch", "flags", "layout", "stages", "names", "controls"]
N = 5


def configs(tier):
    S = specs
    d = 1 if tier == "quick" else 2
    cfgs = S.union(
        S.explore(BASE, d, DIMS),
        S.explore(RICH, d, DIMS if tier == "thorough" else ["T", "mix", "flags", "anch"]),
        S.explore({**S.MINIMAL, "f0": "translog"}, 1, ["obs", "T", "nf", "anch"]),
        S.explore({**BASE, "nf": 3, "f2": "translog", "obs": 2}, 0),
    )
    return [c for c in cfgs if c["T"] > 1 and not c["layout"].startswith("empty") and c["T"] < 4] + [S.WIDE[1], S.WIDE[5]]


def cases(tier):
    out = []
    for k, c in enumerate(configs(tier)):
        out.append({"label": specs.label(c), "mode": "curves", "cfg": c, "deep": tier == "thorough" or k % 16 == 0})
    for outs, ins, parts in ((1, 1, 1), (1, 2, 1), (2, 2, 1), (2, 3, 2), (3, 3, 4), (3, 4, 12)):
        for p in range(parts):
            out.append({"label": f"combine {outs}x{ins} {p}/{parts}", "mode": "combine", "outs": outs, "ins": ins, "part": p, "parts": parts, "full": tier == "thorough"})
    return out


def run(payload, res):
    {"curves": run_curves, "combine": run_combine}[payload["mode"]](payload, res)


def frame(b):
    import pandas as pd

    rows = []
    for i in range(N):
        for t in range(b.T):
            row = {"id": i, "period": t}
            for v in list(b.variables()) + b.observed + b.controls:
                row[v] = specs.val(-1, 1, "c19", v, t, i)
            rows.append(row)
    return pd.DataFrame(rows).set_index(["id", "period"])


def run_curves(payload, res):
    import numpy as np
    import pandas as pd

    from mc.common import as_dict, params_for
    from skillmodels.visualize_transition_equations import get_transition_plots

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    df = frame(b)
    params = params_for(r)
    P = r.parse(as_dict(params))
    meas, ctrl, obs, _ = r.arrays(df)
    filt = r.filter(P, meas, ctrl, obs)["filtered"]
    L = len(r.latent)
    surplus = pd.DataFrame({"value": [5.0]}, index=pd.MultiIndex.from_tuples([("surplus", 0, "a", "b")], names=params.index.names))
    reordered = pd.concat([surplus, params.iloc[::-1]])

    def states(t):
        latent = P["const"][t, :L] + P["scale"][t, :L] * filt[t]
        return np.concatenate([latent, obs[t]], axis=1)

    def curve(t, out, inp, grid, others):
        """others: vector of all factors; the input's position is replaced."""
        S = np.tile(others, (len(grid), 1))
        S[:, r.allf.index(inp)] = grid
        fn = b.model["factors"][out]["transition_function"]
        return ref.trans_value(fn, out, r.allf, S, P["trans"][t][out]) + np.zeros(len(grid))

    def grid_of(t, inp, ranges, n):
        col = states(t)[:, r.allf.index(inp)]
        lo, hi = ranges.get(inp, (col.min(), col.max()))
        return np.linspace(lo, hi, n)

    def lines(fig):
        out = []
        for d in fig.data:
            out.append((d.name, np.asarray(d.x, dtype=float), np.asarray(d.y, dtype=float)))
        return out

    def compare_plots(plots, t, quantiles, n, ranges, where):
        res.check(set(plots) == set(itertools.product(r.allf, r.latent)), "plots", f"{where}: plots for {sorted(plots)}")
        for (inp, out), fig in plots.items():
            if inp not in r.allf or out not in r.latent:
                continue
            g = grid_of(t, inp, ranges, n)
            if g[-1] - g[0] < 1e-9:
                continue
            got = lines(fig)
            if not res.check(len(got) == len(quantiles), "lines", f"{where} ({inp}, {out}): {len(got)} lines for quantiles {quantiles}"):
                continue
            seen = []
            for name, x, y in got:
                q = quantiles[0] if len(quantiles) == 1 else float(name)
                seen.append(q)
                res.close(x, g, "grid", f"{where} ({inp}, {out}) quantile {q}", rtol=1e-6)
                want = curve(t, out, inp, g, np.quantile(states(t), q, axis=0))
                res.close(y, want, "curve", f"{where} ({inp}, {out}) quantile {q}", rtol=1e-6, atol=1e-7)
                res.transitions += 1
            res.check(sorted(seen) == sorted(quantiles), "quantiles", f"{where} ({inp}, {out}): {seen}")
            res.check(fig.layout.xaxis.title.text == inp and fig.layout.yaxis.title.text == out, "titles", f"{where} ({inp}, {out}): {fig.layout.xaxis.title.text}, {fig.layout.yaxis.title.text}")
            if len(res.outcomes) < 50:
                res.saw(np.round(got[0][2], 6))

    settings = [([0.8, 0.2, 0.5], 5, {}, params), (0.3, 4, {}, reordered)]
    if payload["deep"]:
        settings += [((0, 1), 3, {}, params), ("default", 50, {}, params), ([0.4], 4, {f: (-0.7 - k, 1.3 + k) for k, f in enumerate(r.allf)}, params)]
        settings += [([0.1, 0.6], 4, {f: (-0.5 - k, 0.9) for k, f in enumerate(r.latent)}, params)]
    for t in range(b.T - 1):
        for k, (q, n, ranges, par) in enumerate(settings):
            if k == 1 and not payload["deep"] and t < b.T - 2:
                continue
            kwargs = {"quantiles_of_other_factors": q, "n_points": n}
            if q == "default":
                kwargs = {}
            if ranges:
                kwargs["state_ranges"] = {
                    f: pd.DataFrame({"minimum": [lo + 0.01 * s for s in range(b.T)], "maximum": [hi + 0.02 * s for s in range(b.T)]})
                    for f, (lo, hi) in ranges.items()
                }
            here = {f: (lo + 0.01 * t, hi + 0.02 * t) for f, (lo, hi) in ranges.items()}
            plots = get_transition_plots(model_dict=b.model, params=par, data=df, period=t, **kwargs)
            qs = [0.25, 0.5, 0.75] if q == "default" else [q] if isinstance(q, float) else list(q)
            compare_plots(plots, t, qs, n, here, f"period {t} quantiles {q} ranges {sorted(ranges)}")
            res.states += 1
            res.traces += len(plots)
    t = b.T - 2
    # integrating out: with as many draws as individuals there is only one admissible curve
    draws = [(N, None)]
    if payload["deep"]:
        draws += [(1, (k,)) for k in range(N)] + [(2, c) for c in itertools.combinations(range(N), 2)]
    hit = set()
    for n_draws, answer in draws if len(r.allf) > 1 else draws[:1]:
        with chosen(answer):
            plots = get_transition_plots(model_dict=b.model, params=params, data=df, period=t, quantiles_of_other_factors=None, n_points=4, n_draws=n_draws)
        res.states += 1
        for (inp, out), fig in plots.items():
            g = grid_of(t, inp, {}, 4)
            if g[-1] - g[0] < 1e-9:
                continue
            got = lines(fig)
            if not res.check(len(got) == 1, "lines", f"average ({inp}, {out}): {len(got)} lines"):
                continue
            res.close(got[0][1], g, "grid", f"average ({inp}, {out})", rtol=1e-6)
            single = [curve(t, out, inp, g, s) for s in states(t)]
            ok = None
            for combo in itertools.combinations(range(N), n_draws):
                want = np.mean([single[k] for k in combo], axis=0)
                if got[0][2].shape == want.shape and np.allclose(got[0][2], want, rtol=1e-6, atol=1e-7):
                    ok = combo
                    break
            res.check(ok is not None, "average", f"period {t} ({inp}, {out}) with {n_draws} draws: {got[0][2]} is not an average over {n_draws} individuals")
            hit.add((n_draws, ok))
            res.transitions += 1
            res.traces += 1
    res.note("different averages seen", len(hit))
    for t in (b.T - 1, b.T):
        try:
            get_transition_plots(model_dict=b.model, params=params, data=df, period=t)
            res.fail("last-period", f"a transition after period {t} of {b.T} was plotted")
        except ValueError:
            pass
    res.sample({"cfg": payload["label"], "settings": len(settings), "plots": len(plots)})


class chosen:
    """Let numpy's global choice answer with the given positions, if it is asked."""

    def __init__(self, answer):
        self.answer = answer

    def __enter__(self):
        import numpy as np

        self.orig = np.random.choice
        if self.answer is not None:

            def choice(a, size=None, replace=True, p=None):
                n = int(np.prod(size)) if size is not None else 1
                if n != len(self.answer):
                    return self.orig(a, size=size, replace=replace, p=p)
                pool = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
                return pool[list(self.answer)]

            np.random.choice = choice

    def __exit__(self, *exc):
        import numpy as np

        np.random.choice = self.orig


# ------------------------------------------------------------------ combined figures


def ordered_subsets(items, full, limit=2):
    out = []
    for n in range(1, len(items) + 1):
        if full or n <= limit or n == len(items):
            out += [list(p) for p in itertools.permutations(items, n)]
    return out


def run_combine(payload, res):
    import numpy as np
    import plotly.express as px

    from skillmodels.visualize_transition_equations import combine_transition_plots

    outs = ["fb", "fa", "fc"][: payload["outs"]]
    ins = (["fb", "fa", "fc"][: payload["outs"]] + ["inv", "obs2", "zz"])[: payload["ins"]]

    def plot(inp, out):
        base = 10 * ins.index(inp) + 100 * outs.index(out)
        import pandas as pd

        data = pd.DataFrame({"x": [base, base + 1.0] * 2, "y": [base + 2.0, base + 3, base + 4, base + 5], "quantile": ["0.1", "0.1", "0.9", "0.9"]})
        fig = px.line(data, x="x", y="y", color="quantile")
        fig.update_xaxes(title={"text": inp})
        fig.update_yaxes(title={"text": out})
        return fig

    plots = {(i, o): plot(i, o) for o in outs for i in ins}
    requests = [(None, None, {})]
    big = len(ins) == 4
    for rows in ordered_subsets(outs, payload["full"] or not big, 1):
        for cols in ordered_subsets(ins, payload["full"] or not big, 1):
            requests.append((rows, cols, {}))
    requests += [(None, ins[::-1], {}), (outs[::-1], None, {}), (outs[-1], None, {}), (None, ins[-1], {}), (outs[0], ins[0], {})]
    for kw in (
        {"sharex": True},
        {"sharey": False},
        {"sharex": True, "sharey": False},
        {"showlegend": False},
        {"factor_mapping": {ins[0]: "First"}},
        {"factor_mapping": {f: f"Factor {f}" for f in ins + outs}, "sharey": False},
        {"drop": 0},
        {"drop": len(plots) - 1},
        {"drop": len(plots) // 2, "sharex": True},
        {"make_subplot_kwargs": {"horizontal_spacing": 0.01}},
        {"layout_kwargs": {"width": 777}},
    ):
        requests += [(None, None, kw), (outs[::-1], ins[::-1], kw)]
    for rows, cols, kw in requests[payload["part"] :: payload["parts"]]:
        kw = dict(kw)
        use = dict(plots)
        if "drop" in kw:
            gone = sorted(plots, key=str)[kw.pop("drop")]
            if len(plots) > 1:
                use.pop(gone)
            if rows is None and not (len({o for _, o in use}) == len(outs) and len({i for i, _ in use}) == len(ins)):
                continue
        elif "dropped" in kw:
            continue
        mapping = kw.get("factor_mapping", {})
        mapping = dict(mapping) if mapping else {}
        where = f"rows {rows} columns {cols} {kw}"
        if "factor_mapping" in kw:
            kw["factor_mapping"] = dict(mapping)
        fig = combine_transition_plots(use, column_order=cols, row_order=rows, **kw)
        if rows is None:
            rows = [o for k, (_, o) in enumerate(use) if o not in [x for _, x in list(use)[:k]]]
        if cols is None:
            cols = [i for k, (i, _) in enumerate(use) if i not in [x for x, _ in list(use)[:k]]]
        rows = [rows] if isinstance(rows, str) else rows
        cols = [cols] if isinstance(cols, str) else cols
        res.states += 1
        res.traces += 1
        total = 0
        axes = {}
        for r_, out in enumerate(rows):
            for c_, inp in enumerate(cols):
                sub = fig.get_subplot(r_ + 1, c_ + 1)
                xa, ya = sub.xaxis.plotly_name, sub.yaxis.plotly_name
                axes[(xa, ya)] = (r_, c_)
                mine = [d for d in fig.data if (d.xaxis or "x").replace("x", "xaxis") == xa and (d.yaxis or "y").replace("y", "yaxis") == ya]
                want = use[(inp, out)].data if (inp, out) in use else ()
                total += len(want)
                got = sorted((list(map(float, d.x)), list(map(float, d.y)), d.name) for d in mine)
                exp = sorted((list(map(float, d.x)), list(map(float, d.y)), d.name) for d in want)
                res.check(got == exp, "cell", f"{where}: row {out}, column {inp} shows {got}, expected {exp}")
                res.check(sub.xaxis.title.text == mapping.get(inp, inp), "x-title", f"{where}: row {out}, column {inp} titled {sub.xaxis.title.text}")
                if c_ == 0:
                    res.check(sub.yaxis.title.text == mapping.get(out, out), "y-title", f"{where}: row {out}, column {inp} titled {sub.yaxis.title.text}")
                else:
                    res.check(sub.yaxis.title.text in (None, mapping.get(out, out)), "y-title", f"{where}: row {out}, column {inp} titled {sub.yaxis.title.text}")
                res.transitions += 1
        res.check(len(fig.data) == total, "surplus", f"{where}: {len(fig.data)} traces, expected {total}")
        res.check(len(axes) == len(rows) * len(cols), "cells", f"{where}: {len(axes)} cells")
        if kw.get("showlegend", True):
            shown = [d for d in fig.data if d.showlegend is not False]
            first = use.get((cols[0], rows[0]))
            res.check(len(shown) == (len(first.data) if first is not None else 0), "legend", f"{where}: {len(shown)} legend entries")
        if "layout_kwargs" in kw:
            res.check(fig.layout.width == 777, "layout", where)
        if len(res.outcomes) < 200:
            res.saw([rows, cols])
    res.sample({"case": payload["label"], "arrangements": len(requests)})
