"""C18: correlation heatmaps show the requested part of the table, truthfully."""
import itertools

from mc import specs

ID = "C18"
RULE = (
    "Every correlation table of up to three variables with off-diagonal entries from a lattice (incl. missing and tiny values), "
    "tables of four variables with the largest entry at every position, tables with undefined diagonal and several kinds of labels "
    "x every combination of {show_diagonal, show_upper_triangle, trim_heatmap, annotate, rounding}; every single and every pair of "
    "explicit display arguments (color range, colors, fonts, angles, heatmap_kwargs, layout_kwargs).  The figure is read back and "
    "compared with a reference rendering: which labels and cells are visible, their rounded values, annotations, color range."
)
BOUNDS = {
    "quick": "lattice of 5 values for 2 variables, 4 values for 3 variables; 12 positions x signs for 4 variables; all 2^4 x 3 options; all singles and pairs of 21 explicit settings",
    "thorough": "lattice of 7 values for 2 and 3 variables; 5 roundings; pairs of explicit settings x all masks",
}
ASSUMPTIONS = ["labels are unique", "rounding is to the nearest (ties either way)"]

LABELS = {
    "str": ["fac1", "b, 0", "y3", "zz"],
    "rev": ["z", "m", "c", "a"],
    "int": [30, 20, 10, 5],
    "mixed": ["a", 1, "b", 2],
}
NANV = "nan"


def tables(tier):
    lat2 = [-1, -0.3751, 0, 0.1264, NANV] if tier == "quick" else [-1, -0.3751, -0.004, 0, 0.1264, 0.9996, NANV]
    lat3 = [-0.9049, -0.0044, 0.4561, NANV] if tier == "quick" else [-0.9049, -0.0044, 0, 0.1264, 0.4561, 0.9996, NANV]
    out = [("str", 1, [])]
    for v in lat2:
        for lab in LABELS:
            out.append((lab, 2, [v]))
    for combo in itertools.product(lat3, repeat=3):
        out.append(("str", 3, list(combo)))
    for k in range(6):
        for s in (1, -1):
            vals = [round(s2 * 0.1 * (j + 1) + 0.003, 4) for j, s2 in enumerate((1, -1, 1, -1, 1, -1))]
            vals[k] = s * 0.8772
            for lab in ("rev", "mixed", "int"):
                out.append((lab, 4, vals))
    return out


def table(spec, diag_nan=()):
    import numpy as np
    import pandas as pd

    lab, n, off = spec
    arr = np.eye(n)
    for (i, j), v in zip(itertools.combinations(range(n), 2), off):
        arr[i, j] = arr[j, i] = np.nan if v == NANV else v
    for i in diag_nan:
        arr[i, :] = arr[:, i] = np.nan
    labels = LABELS[lab][:n]
    return pd.DataFrame(arr, index=labels, columns=labels)


SETTINGS = [
    {"zmax": 0.7},
    {"zmax": 1.5},
    {"zmin": -0.2},
    {"zmin": 0.0},
    {"zmid": 0.1},
    {"colorscale": "Viridis"},
    {"show_color_bar": False},
    {"annotation_fontsize": 7},
    {"annotation_text_color": "red"},
    {"annotation_text_angle": 45},
    {"axes_tick_fontsize": (9, 15)},
    {"axes_tick_fontsize": {"x": 8, "y": 14}},
    {"axes_tick_label_angle": [10, 20]},
    {"axes_tick_label_color": ("blue", "green")},
    {"heatmap_kwargs": {"zmax": 0.33}},
    {"heatmap_kwargs": {"zmin": -0.44, "zmid": 0.05}},
    {"heatmap_kwargs": {"colorscale": "Cividis", "showscale": False}},
    {"layout_kwargs": {"title": "A title", "width": 321}},
    {"layout_kwargs": {"template": "plotly_dark", "yaxis_autorange": True}},
    {"layout_kwargs": {"annotations": []}},
    {"layout_kwargs": {"xaxis_tickangle": 33}},
]


def cases(tier):
    out = []
    t = tables(tier)
    step = 12
    for k in range(0, len(t), step):
        out.append({"label": f"tables #{k}", "mode": "options", "tables": t[k : k + step], "roundings": [2, 0, 3] if tier == "quick" else [2, 0, 1, 3, 5]})
    nan = [("str", 3, [0.5, -0.25, 0.75]), ("rev", 4, [0.1, 0.2, 0.3, -0.4, 0.5, 0.6])]
    for s in nan:
        n = s[1]
        for k in range(1, n + 1):
            for gone in itertools.combinations(range(n), k):
                out.append({"label": f"undefined {n} {gone}", "mode": "options", "tables": [s], "gone": list(gone), "roundings": [2]})
    pairs = [[]] + [[i] for i in range(len(SETTINGS))] + [list(c) for c in itertools.combinations(range(len(SETTINGS)), 2)]
    masks = [(True, True, False), (False, False, True)] if tier == "quick" else list(itertools.product((True, False), repeat=3))
    for m in masks:
        for k in range(0, len(pairs), 60):
            out.append({"label": f"settings {m} #{k}", "mode": "settings", "mask": list(m), "sets": pairs[k : k + 60]})
    return out


def expected(corr, diag, upper, trim, rounding):
    """(rows, columns, dict of visible cells) of the reference rendering."""
    labels = list(corr.index)
    vis = {}
    for i, a in enumerate(labels):
        for j, b in enumerate(labels):
            if i > j or (i == j and diag) or (i < j and upper):
                v = float(corr.iloc[i, j])
                if v == v:
                    vis[(a, b)] = v
    rows = [a for a in labels if not trim or any(r == a for r, _ in vis)]
    cols = [b for b in labels if not trim or any(c == b for _, c in vis)]
    return rows, cols, vis


def native(x):
    return [v.item() if hasattr(v, "item") else v for v in x]


def verify(res, fig, corr, diag, upper, trim, rounding, annotate, where, **explicit):
    import numpy as np

    rows, cols, vis = expected(corr, diag, upper, trim, rounding)
    res.transitions += 1
    res.traces += 1
    if not res.check(len(fig.data) == 1 and fig.data[0].type == "heatmap", "trace", f"{where}: {len(fig.data)} traces"):
        return
    h = fig.data[0]
    x, y = native(h.x), native(h.y)
    if not (res.check(y == rows, "rows", f"{where}: rows {y}, expected {rows}") and res.check(x == cols, "columns", f"{where}: columns {x}, expected {cols}")):
        return
    z = np.asarray(h.z, dtype=float).reshape(len(rows), len(cols))
    shown = {}
    for i, a in enumerate(rows):
        for j, b in enumerate(cols):
            v = z[i, j]
            want = vis.get((a, b))
            if want is None:
                res.check(np.isnan(v), "hidden", f"{where}: cell ({a}, {b}) shows {v}")
            else:
                ok = abs(v - want) <= 0.5 * 10**-rounding + 1e-12 and abs(v * 10**rounding - round(v * 10**rounding)) < 1e-6
                res.check(ok, "value", f"{where}: cell ({a}, {b}) shows {v}, correlation is {want}, rounding {rounding}")
            if v == v:
                shown[(a, b)] = v
    if annotate is not None:
        got = {}
        ann = fig.layout.annotations
        for an in ann:
            k = (an.y, an.x)
            res.check(k not in got, "annotation-twice", f"{where}: {k}")
            got[k] = an.text
        if annotate:
            for k in itertools.product(rows, cols):
                text = got.pop(k, "")
                text = "" if text is None else str(text)
                if k in shown:
                    res.check(is_number(text, shown[k]), "annotation", f"{where}: annotation of {k} is {text!r}, displayed value {shown[k]}")
                else:
                    res.check(text.strip() == "", "annotation-hidden", f"{where}: annotation {text!r} of hidden cell {k}")
            res.check(not got, "annotation-elsewhere", f"{where}: {got}")
        else:
            res.check(not got, "annotation-off", f"{where}: {got}")
    off = [abs(v) for (a, b), v in shown.items() if a != b]
    zmax = explicit.get("zmax", max(off) if off else None)
    if zmax is not None:
        res.close(h.zmax, zmax, "zmax", f"{where}: color range ends at {h.zmax}", atol=1e-12)
        res.close(h.zmin, explicit.get("zmin", -explicit.get("sym", zmax)), "zmin", f"{where}: color range starts at {h.zmin}", atol=1e-12)
    elif "zmin" not in explicit:
        res.check(h.zmin == -h.zmax, "symmetric", f"{where}: color range {h.zmin}..{h.zmax}")
    res.check(h.zmid == explicit.get("zmid", 0), "zmid", f"{where}: {h.zmid}")
    res.check(bool(h.showscale) == explicit.get("showscale", True), "showscale", f"{where}: {h.showscale}")
    if len(res.outcomes) < 300:
        res.saw([rows, cols, sorted((str(k), v) for k, v in shown.items()), h.zmax])


def is_number(text, value):
    try:
        return abs(float(text) - value) < 1e-12
    except ValueError:
        return False


def run(payload, res):
    {"options": run_options, "settings": run_settings}[payload["mode"]](payload, res)


def run_options(payload, res):
    from skillmodels.correlation_heatmap import plot_correlation_heatmap

    for spec in payload["tables"]:
        corr = table(spec, payload.get("gone", ()))
        for rounding in payload["roundings"]:
            for diag, upper, trim in itertools.product((True, False), repeat=3):
                for annotate in (True, False) if rounding == 2 else (True,):
                    fig = plot_correlation_heatmap(
                        corr, rounding=rounding, show_diagonal=diag, show_upper_triangle=upper, trim_heatmap=trim, annotate=annotate
                    )
                    res.states += 1
                    where = f"{spec} gone={payload.get('gone', [])} diag={diag} upper={upper} trim={trim} annotate={annotate} rounding={rounding}"
                    verify(res, fig, corr, diag, upper, trim, rounding, annotate, where)
    res.sample({"table": str(spec), "last options": where, "zmax": float(fig.data[0].zmax)})


def run_settings(payload, res):
    import numpy as np
    from plotly import graph_objects as go

    from skillmodels.correlation_heatmap import plot_correlation_heatmap

    upper, diag, trim = payload["mask"]
    corr = table(("rev", 4, [0.11, -0.22, 0.63, -0.44, 0.25, 0.36]))
    for ids in payload["sets"]:
        args = {}
        clash = False
        for i in ids:
            for k, v in SETTINGS[i].items():
                if isinstance(v, dict) and k.endswith("kwargs"):
                    args[k] = {**args.get(k, {}), **v}
                else:
                    clash |= k in args
                    args[k] = v
        if clash:
            continue
        where = f"{args}, mask {payload['mask']}"
        fig = plot_correlation_heatmap(corr, show_upper_triangle=upper, show_diagonal=diag, trim_heatmap=trim, **args)
        res.states += 1
        hk, lk = args.get("heatmap_kwargs", {}), args.get("layout_kwargs", {})
        explicit = {}
        if "zmax" in args:
            explicit["zmax"] = explicit["sym"] = args["zmax"]
        for k in ("zmin", "zmid"):
            if k in args:
                explicit[k] = args[k]
        if "show_color_bar" in args:
            explicit["showscale"] = args["show_color_bar"]
        if "zmax" in hk and "zmin" not in args and "zmin" not in hk:
            # the lower end is only determined by the individual arguments
            explicit["zmin"] = fig.data[0].zmin
        explicit.update({k: v for k, v in hk.items() if k != "colorscale"})
        annotations = None if "annotations" in lk else True
        verify(res, fig, corr, diag, upper, trim, 2, annotations, where, **explicit)
        if "annotations" in lk:
            res.check(len(fig.layout.annotations) == 0, "layout-annotations", where)
        color = hk.get("colorscale", args.get("colorscale", "RdBu_r"))
        res.check(fig.data[0].colorscale == go.Heatmap(colorscale=color).colorscale, "colorscale", f"{where}: {fig.data[0].colorscale[:2]}")
        for pos, ax in enumerate("xy"):
            axis = fig.layout[f"{ax}axis"]
            for name, default, got in (
                ("axes_tick_fontsize", (12, 12), axis.tickfont.size),
                ("axes_tick_label_angle", (90, 0), axis.tickangle),
                ("axes_tick_label_color", ("black", "black"), axis.tickfont.color),
            ):
                v = args.get(name, default)
                want = v[ax] if isinstance(v, dict) else v[pos]
                if name == "axes_tick_label_angle" and f"{ax}axis_tickangle" in lk:
                    want = lk[f"{ax}axis_tickangle"]
                res.check(got == want, name, f"{where}: {ax} axis has {got}, expected {want}")
        for an in fig.layout.annotations:
            res.check(an.font.size == args.get("annotation_fontsize", 13), "annotation_fontsize", where)
            res.check(an.font.color == args.get("annotation_text_color", "black"), "annotation_text_color", where)
            res.check(an.textangle == args.get("annotation_text_angle", 0), "annotation_text_angle", where)
        if "title" in lk:
            res.check(fig.layout.title.text == lk["title"] and fig.layout.width == lk["width"], "layout_kwargs", where)
        if "template" in lk:
            res.check(
                fig.layout.yaxis.autorange is True and fig.layout.template == go.Figure().update_layout(template="plotly_dark").layout.template,
                "layout_kwargs-template",
                where,
            )
