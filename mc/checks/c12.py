"""C12: simulated data obey the model equations with independent fresh shocks."""
import itertools

from mc import ref, rng, specs

ID = "C12"
RULE = (
    "The random number generator is the environment: all its answers are scripted with distinct generic values, and the "
    "component choices are enumerated over all outcomes (uniform draws at the middle and next to both ends of every "
    "component's interval). From the returned frames the innovations of every equation are recovered with the reference "
    "model (initial draw, shock of every transition, error of every measurement, policy shock) and each must equal a scripted "
    "standard normal draw, no draw being used twice. Policies are enumerated over factor x period x {fixed, stochastic} and "
    "pairs. Also compared: labels, shape, anchored states and ranges."
)
BOUNDS = {
    "quick": "<=1 deviation from minimal and rich (3 individuals); all mixture assignments of 2 individuals x 2 or 3 components; all single policies and all pairs for 3 models; degenerate standard deviations; the 8 special models",
    "thorough": "<=1 deviation from 4 bases and <=2 structural deviations from minimal and rich; assignments of 3 individuals; policies for 8 models",
}
ASSUMPTIONS = ["random numbers come from numpy.random", "data passed to the simulation are balanced", "no policy in the last period"]


def cases(tier):
    S = specs
    if tier == "quick":
        cfgs = S.union(S.explore(S.MINIMAL, 1), S.explore(S.RICH, 1, ["nf", "T", "f0", "f1", "anch", "flags", "layout", "names"]))
        cfgs = [c for c in cfgs if c["layout"] not in ("ints",) or c["T"] == 2]
        n = 2
    else:
        cfgs = S.union(*[S.explore(B, 1) for B in (S.MINIMAL, S.RICH, S.RICHLIN, S.PLAIN)], *[S.explore(B, 2, ["nf", "T", "mix", "anch", "obs", "layout", "f0", "controls", "flags", "names"]) for B in (S.MINIMAL, S.RICH)])
        n = 3
    cfgs = S.union(cfgs, S.WIDE)
    out = [{"label": "config " + S.label(c), "mode": "config", "cfg": c} for c in cfgs]
    for mix in (2, 3):
        for obs in (0, 1):
            out.append({"label": f"mixture {mix} obs={obs}", "mode": "mixture", "n": n, "cfg": {**S.MINIMAL, "nf": 2, "mix": mix, "obs": obs, "layout": "one"}})
    pol = [S.RICH, {**S.MINIMAL, "nf": 2, "T": 3, "f0": "constant", "f1": "log_ces"}, {**S.RICHLIN, "layout": "empty_mid", "names": "rev", "obs": 2}]
    if tier == "thorough":
        pol += [{**S.RICH, "nf": 3, "f2": "translog"}, {**S.RICH, "f0": "c_names", "T": 4}, {**S.RICH, "anch": "10", "flags": "0001"}, {**S.PLAIN, "f0": "c_states"}, {**S.RICH, "layout": "late"}]
    for c in pol:
        for part in range(2):
            out.append({"label": f"policies {part} {S.label(c)}", "mode": "policies", "cfg": c, "part": part})
    for c in pol:
        out.append({"label": "degenerate " + S.label(c), "mode": "degenerate", "cfg": c})
    out.append({"label": "arguments", "mode": "args", "cfg": S.RICH})
    return out


class Matcher:
    """Assigns recovered innovations to scripted draws, each at most once."""

    def __init__(self, pool, tol=2e-6):
        import numpy as np

        self.np = np
        self.order = np.argsort(pool)
        self.pool = np.asarray(pool)[self.order] if len(pool) else np.zeros(0)
        self.used = np.zeros(len(self.pool), bool)
        self.tol = tol

    def candidates(self, z):
        np = self.np
        lo, hi = np.searchsorted(self.pool, [z - self.tol, z + self.tol])
        return list(range(lo, hi))

    def take(self, z):
        """'' if matched, otherwise what is wrong."""
        cand = self.candidates(z)
        free = [i for i in cand if not self.used[i]]
        if free:
            best = min(free, key=lambda i: abs(self.pool[i] - z))
            self.used[best] = True
            return ""
        return "a draw that was used before" if cand else "no draw of the random number generator"

    def take_pair(self, total, a, b):
        """total = a * z1 + b * z2 for two different unused draws."""
        for i in range(len(self.pool)):
            if self.used[i]:
                continue
            rest = (total - a * self.pool[i]) / b
            for j in self.candidates(rest):
                if j != i and not self.used[j]:
                    self.used[i] = self.used[j] = True
                    return ""
        return "no pair of draws of the random number generator"


def simulate(b, params, script, data, policies=None, n_obs=None):
    import skillmodels.simulate_data as sd
    from skillmodels import simulate_dataset

    with rng.scripted(script, sd):
        return simulate_dataset(b.model, params, n_obs=n_obs, data=data, policies=policies)


def verify(b, r, params, out, script, data, n, res, label, policies=(), components=None):
    import numpy as np

    from mc.common import as_dict

    P = r.parse(as_dict(params))
    T, L = r.T, len(r.latent)
    lat, anc, meas = (out["unanchored_states"]["states"], out["anchored_states"]["states"], out["measurements"])

    # ---- frames hold one row per individual and period with labelled values
    for name, f, cols in (
        ("latent", lat, r.latent),
        ("anchored", anc, r.latent),
        ("measurements", meas, list(dict.fromkeys(nm for _, nm, *_ in r.updates))),
    ):
        rows = sorted(zip(f["id"].tolist(), f["period"].tolist()))
        ok = res.check(rows == [(i, t) for i in range(n) for t in range(T)], f"rows-{name}", f"{label}: rows {rows[:6]}...")
        ok &= res.check(set(f.columns) - {"id", "period"} == set(cols) and not f.columns.duplicated().any(), f"columns-{name}", f"{label}: columns {list(f.columns)}, expected {cols}")
        if not ok:
            return
    X = lookup(lat, r.latent, n, T)
    A = lookup(anc, r.latent, n, T)
    res.close(A, X * P["scale"][:, None, :L] + P["const"][:, None, :L], "anchored", label)
    for f, key in ((X, "unanchored_states"), (A, "anchored_states")):
        for k, fac in enumerate(r.latent):
            got = out[key]["state_ranges"][fac]
            res.close(got.loc[list(range(T)), ["minimum", "maximum"]].to_numpy(), np.stack([f[:, :, k].min(axis=1), f[:, :, k].max(axis=1)], axis=1), "ranges", label)

    if data is not None:
        _, ctrl, obs, _ = r.arrays(data)
    else:
        ctrl, obs = np.ones((T, n, 1)), np.zeros((T, n, 0))
    m = Matcher(script.pool)

    def effects(t, k):
        pols = [p for p in policies if p["period"] == t and p["factor"] == r.latent[k]]
        return sum(p["effect_size"] for p in pols), float(np.sqrt(sum(p["standard_deviation"] ** 2 for p in pols))), pols

    problems = []
    # ---- transitions
    for t in range(T - 1):
        S = np.concatenate([X[t], obs[t]], axis=-1)
        nxt = r.next_states(P, t, S)
        for k in range(L):
            mean, sd2, pols = effects(t + 1, k)
            assert len([p for p in pols if p["standard_deviation"] > 0]) <= 1
            sd = P["shock_sds"][t, k]
            for i in range(n):
                d = X[t + 1, i, k] - nxt[i, k] - mean
                problems.append((innovation(m, d, sd, sd2), "shock", f"factor {r.latent[k]}, individual {i}, period {t + 1}"))
    # ---- measurements
    for u, (t, nm, var, facs, _) in enumerate(r.updates):
        y = meas.set_index(["id", "period"])[nm]
        for i in range(n):
            fit = X[t, i] @ P["loadings"][u] + ctrl[t, i] @ P["controls"][u]
            problems.append((innovation(m, y.loc[(i, t)] - fit, P["meas_sds"][u], 0.0), "measurement", f"{nm}, individual {i}, period {t}"))
    for nm in dict.fromkeys(x[1] for x in r.updates):
        have = {x[0] for x in r.updates if x[1] == nm}
        y = meas.set_index(["id", "period"])[nm]
        for t in set(range(T)) - have:
            res.check(y.xs(t, level="period").isna().all(), "absent measurement", f"{label}: {nm} has values in period {t}")
    # ---- initial states
    for i in range(n):
        best = None
        for k in range(r.M):
            if components is not None and components[i] != k:
                continue
            chol = rng.root(P["covs"][k])
            dev = X[0, i] - P["means"][k]
            eff = [effects(0, j) for j in range(L)]
            dev = dev - np.array([e[0] for e in eff])
            msgs = []
            if all(e[1] == 0 for e in eff):
                z = []
                for j in range(L):
                    rest = dev[j] - chol[j, :j] @ np.array(z)
                    z.append(rest / chol[j, j] if chol[j, j] > 0 else 0.0)
                save = m.used.copy()
                msgs = [m.take(x) for j, x in enumerate(z) if chol[j, j] > 0]
            else:
                # a stochastic policy hits the last factor only
                save = m.used.copy()
                z = []
                for j in range(L - 1):
                    z.append((dev[j] - chol[j, :j] @ np.array(z)) / chol[j, j])
                    msgs.append(m.take(z[-1]))
                rest = dev[L - 1] - chol[L - 1, : L - 1] @ np.array(z)
                msgs.append(m.take_pair(rest, chol[L - 1, L - 1], eff[L - 1][1]))
            bad = [x for x in msgs if x]
            if not bad:
                best = k
                break
            m.used[:] = save
        problems.append(("" if best is not None else f"not a fresh draw from component {components[i] if components is not None else 'of the mixture'}", "initial", f"individual {i}"))
    for kind in ("shock", "measurement", "initial"):
        bad = [(msg, where) for msg, k, where in problems if k == kind and msg]
        res.check(not bad, kind, f"{label}: {len(bad)} innovations are wrong, e.g. {bad[:2]}")
    res.note("innovations recovered", len(problems))
    res.traces += 1
    res.saw([label, np.round(X, 5)])


def innovation(m, d, sd, sd2):
    if sd == 0 and sd2 == 0:
        return "" if abs(d) < 1e-8 else "residual of an equation without noise"
    if sd2 == 0:
        return m.take(d / sd)
    if sd == 0:
        return m.take(d / sd2)
    return m.take_pair(d, sd, sd2)


def lookup(frame, factors, n, T):
    import numpy as np

    f = frame.set_index(["id", "period"]).sort_index()
    return np.array([[[f.loc[(i, t), k] for k in factors] for i in range(n)] for t in range(T)], dtype=float)


def panel(b, n):
    cells = b.cells()
    hists = [{}, {c: specs.alt_value(*c) for c in cells}] + [{}] * n
    return b.panel(hists[:n], ids=[3 * i + 1 for i in range(n)])


def run(payload, res):
    import numpy as np

    from mc.common import params_for

    b = specs.build(payload["cfg"])
    r = ref.Ref(b.model)
    params = params_for(r)
    mode = payload["mode"]
    data_needed = bool(b.controls or b.observed)
    cum = np.cumsum(r.parse(dict(zip(list(params.index), params["value"])))["weights"])
    mids = [(a + z) / 2 for a, z in zip([0, *cum[:-1]], cum)]

    if mode == "config":
        n = 3
        for k, salt in enumerate((0, 7)):
            p = params_for(r, k)
            data = panel(b, n) if data_needed or k else None
            w = np.cumsum(r.parse(dict(zip(list(p.index), p["value"])))["weights"])
            comps = [(i + k) % r.M for i in range(n)]
            us = [([0, *w][c] + w[c]) / 2 for c in comps]
            s = rng.Script(us, salt)
            out = simulate(b, p, s, data, n_obs=None if data is not None else n)
            verify(b, r, p, out, s, data, n, res, f"{payload['label']} script {k}", components=comps if r.M > 1 else None)
            res.states += 1
            res.transitions += r.T
    elif mode == "mixture":
        n = payload["n"]
        points = []
        for k in range(r.M):
            lo, hi = [0, *cum][k], cum[k]
            points += [(k, (lo + hi) / 2), (k, lo + 1e-6), (k, hi - 1e-6)]
        data = panel(b, n) if data_needed else None
        combos = list(itertools.product(points, repeat=n))
        if len(combos) > 200:
            combos = [c for c in combos if sum(abs(u - mids[k]) < 1e-12 for k, u in c) >= n - 1]
        for combo in combos:
            s = rng.Script([u for _, u in combo])
            out = simulate(b, params, s, data, n_obs=None if data is not None else n)
            verify(b, r, params, out, s, data, n, res, f"{payload['label']} draws {combo}", components=[k for k, _ in combo])
            res.states += 1
            res.transitions += n
    elif mode == "policies":
        n = 2
        data = panel(b, n) if data_needed else None
        pols = []
        for t in range(r.T - 1):
            for f in r.latent:
                pols.append([{"period": t, "factor": f, "effect_size": 0.6, "standard_deviation": 0}])
                if t or f == r.latent[-1]:
                    pols.append([{"period": t, "factor": f, "effect_size": -0.4, "standard_deviation": 0.5}])
        single = list(pols)
        for a, c in itertools.combinations(range(len(single)), 2):
            pa, pc = single[a][0], single[c][0]
            if (pa["period"], pa["factor"]) == (pc["period"], pc["factor"]) and pa["standard_deviation"] and pc["standard_deviation"]:
                continue
            pols.append([pc, pa] if (a + c) % 2 else [pa, pc])
        pols.append([single[0][0], single[0][0]])
        pols.append([])
        us = [mids[i % r.M] for i in range(n)]
        for j, pol in enumerate(pols):
            if j % 2 != payload["part"]:
                continue
            s = rng.Script(us, j)
            out = simulate(b, params, s, data, policies=pol, n_obs=None if data is not None else n)
            verify(b, r, params, out, s, data, n, res, f"{payload['label']} {pol}", policies=pol, components=[i % r.M for i in range(n)] if r.M > 1 else None)
            res.states += 1
            res.transitions += len(pol)
        bad = [{"period": 0, "factor": r.latent[0], "effect_size": 1.0, "standard_deviation": -1.0}]
        try:
            simulate(b, params, rng.Script(us), data, policies=bad, n_obs=None if data is not None else n)
            res.fail("negative sd", "a policy with negative standard deviation was accepted")
        except ValueError:
            pass
    elif mode == "degenerate":
        n = 2
        data = panel(b, n) if data_needed else None
        us = [mids[i % r.M] for i in range(n)]
        labs = list(params.index)
        sets = []
        for f in r.latent:
            sets.append([x for x in labs if x[0] == "shock_sds" and x[2] == f])
        for t in range(r.T):
            sets.append([x for x in labs if x[0] in ("meas_sds", "shock_sds") and x[1] == t])
        sets.append([x for x in labs if x[0] in ("meas_sds", "shock_sds")])
        sets.append([x for x in labs if x[0] == "initial_cholcovs"])
        sets.append([x for x in labs if x[0] == "initial_cholcovs" and (x[3].startswith(r.latent[-1]))])
        sets.append([x for x in labs if x[0] in ("meas_sds", "shock_sds", "initial_cholcovs")])
        for j, zero in enumerate(sets):
            p = params.copy()
            p["value"] = [0.0 if lab in set(zero) else v for lab, v in zip(labs, p["value"])]
            s = rng.Script(us, j)
            out = simulate(b, p, s, data, n_obs=None if data is not None else n)
            verify(b, r, p, out, s, data, n, res, f"{payload['label']} zero {zero[:2]}..", components=[i % r.M for i in range(n)] if r.M > 1 else None)
            res.states += 1
            res.transitions += len(zero)
    else:
        run_args(res)


def run_args(res):
    """What happens with n_obs and data."""
    import warnings

    import numpy as np

    from mc.common import params_for

    for obs, con in itertools.product((0, 1), (0, 1)):
        b = specs.build({**specs.MINIMAL, "obs": obs, "controls": con})
        r = ref.Ref(b.model)
        params = params_for(r)
        for n_obs in (None, 2, 3, 5):
            for with_data in (False, True):
                data = panel(b, 3) if with_data else None
                s = rng.Script()
                must_fail = data is None and (n_obs is None or obs or con)
                with warnings.catch_warnings(record=True) as rec:
                    warnings.simplefilter("always")
                    try:
                        out = simulate(b, params, s, data, n_obs=n_obs)
                    except ValueError as e:
                        res.check(must_fail, "rejected", f"obs={obs} controls={con} n_obs={n_obs} data={with_data}: {str(e)[:200]}")
                        continue
                res.check(not must_fail, "accepted", f"obs={obs} controls={con} n_obs={n_obs} data={with_data} was accepted")
                if must_fail:
                    continue
                n = 3 if with_data else n_obs
                msg = [str(w.message) for w in rec if "n_obs" in str(w.message)]
                res.check(bool(msg) == (with_data and n_obs not in (None, 3)), "n_obs warning", f"n_obs={n_obs} data={with_data}: {msg}")
                verify(b, r, params, out, s, data, n, res, f"arguments obs={obs} controls={con} n_obs={n_obs} data={with_data}")
                res.states += 1
                res.transitions += 1
    assert np is not None
