"""Reference semantics of a latent factor model, written from the documentation.

Independent of skillmodels: covariance form Kalman filter with the Julier unscented
transform, an exact Gaussian oracle for linear models, the parameter labels, bounds and
constraints implied by a specification, and the model equations for simulation.
"""
import math

import numpy as np

LOG2PI = math.log(2 * math.pi)


def logsumexp(a, axis):
    m = np.max(a, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide="ignore"):
        return np.squeeze(m, axis=axis) + np.log(np.exp(a - m).sum(axis=axis))


# ------------------------------------------------------------------ transition functions


def trans_param_names(spec, allf):
    """Documented parameter names of a transition function, in documented order."""
    if callable(spec):
        return list(spec.__registered_params__)
    sq = [f"{f} ** 2" for f in allf]
    inter = [f"{a} * {b}" for i, a in enumerate(allf) for b in allf[i + 1 :]]
    return {
        "linear": lambda: list(allf) + ["constant"],
        "translog": lambda: list(allf) + sq + inter + ["constant"],
        "robust_translog": lambda: list(allf) + sq + inter + ["constant"],
        "linear_and_squares": lambda: list(allf) + sq + ["constant"],
        "log_ces": lambda: list(allf) + ["phi"],
        "log_ces_general": lambda: list(allf) + [f"sigma_{f}" for f in allf] + ["tfp"],
        "constant": lambda: [],
    }[spec]()


def trans_value(spec, factor, allf, S, p):
    """Next value of factor; S has shape (..., n_all_factors), p maps names to values."""
    col = {f: S[..., i] for i, f in enumerate(allf)}
    if callable(spec):
        kind = spec._mc_kind
        if kind[0] == "c_names":
            a, b = kind[1], kind[2]
            if a == b:
                return p["b"] * col[a] + p["inter"] * col[a] ** 2 + p["const"]
            return p["b"] * col[a] + p["a"] * col[b] + p["inter"] * col[a] * col[b] + p["const"]
        if kind[0] == "c_states":
            return p["k"] * S[..., 0] + p["sq"] * (S**2).sum(axis=-1) + p["const"]
        if kind[0] == "c_own":
            return p["k"] * col[kind[1]] + p["const"]
        if kind[0] == "fn":
            return kind[1](col, p)
        raise ValueError(kind)
    if spec == "constant":
        return col[factor]
    if spec in ("linear", "translog", "robust_translog", "linear_and_squares"):
        if spec == "robust_translog":
            col = {k: np.clip(v, -1e12, 1e12) for k, v in col.items()}
        out = sum(p[f] * col[f] for f in allf) + p["constant"]
        if spec != "linear":
            out = out + sum(p[f"{f} ** 2"] * col[f] ** 2 for f in allf)
        if spec in ("translog", "robust_translog"):
            for i, a in enumerate(allf):
                for b in allf[i + 1 :]:
                    out = out + p[f"{a} * {b}"] * col[a] * col[b]
        return out
    if spec == "log_ces":
        terms = np.stack([np.log(p[f]) + p["phi"] * col[f] for f in allf], axis=-1)
        return logsumexp(terms, axis=-1) / p["phi"]
    if spec == "log_ces_general":
        terms = np.stack([np.log(p[f]) + p[f"sigma_{f}"] * col[f] for f in allf], axis=-1)
        return logsumexp(terms, axis=-1) * p["tfp"]
    raise ValueError(spec)


# ------------------------------------------------------------------ the model


class Ref:
    def __init__(self, model):
        self.model = model
        self.latent = list(model["factors"])
        self.observed = list(model.get("observed_factors", []))
        self.allf = self.latent + self.observed
        self.controls = ["constant"] + list(model.get("controls", []))
        self.T = max(len(s["measurements"]) for s in model["factors"].values())
        opts = {
            "n_mixtures": 1,
            "sigma_points_scale": 2,
            "robust_bounds": True,
            "bounds_distance": 1e-3,
            "clipping_lower_bound": -1e250,
            "clipping_upper_bound": None,
            "clipping_lower_hardness": 1,
            "clipping_upper_hardness": 1,
        }
        opts.update(model.get("estimation_options", {}))
        if not opts["robust_bounds"]:
            opts["bounds_distance"] = 0
        self.opts = opts
        self.M = opts["n_mixtures"]
        anch = model.get("anchoring")
        self.anch = anch
        outcomes = anch["outcomes"] if anch else {}
        # one row per factor, in the order of the factors
        self.anchored = [f for f in self.latent if f in outcomes]
        self.outcomes = {f: outcomes[f] for f in self.anchored}
        self.updates = []  # (period, name, variable, factors, purpose)
        for t in range(self.T):
            rows = {}
            for f in self.latent:
                per = model["factors"][f]["measurements"]
                for m in per[t] if t < len(per) else []:
                    rows.setdefault(m, []).append(f)
            for m, facs in rows.items():
                self.updates.append((t, m, m, facs, "measurement"))
            for f in self.anchored:
                o = self.outcomes[f]
                self.updates.append((t, f"{o}_{f}", o, [f], "anchoring"))
        self.trans_names = {
            f: trans_param_names(model["factors"][f]["transition_function"], self.allf) for f in self.latent
        }

    # -------------------------------------------------- labels

    def labels(self):
        out = []
        for t, n, _, _, _ in self.updates:
            out += [("controls", t, n, c) for c in self.controls]
        for t, n, _, facs, _ in self.updates:
            out += [("loadings", t, n, f) for f in facs]
        for t, n, _, _, _ in self.updates:
            out.append(("meas_sds", t, n, "-"))
        for t in range(self.T - 1):
            out += [("shock_sds", t, f, "-") for f in self.latent]
        for k in range(self.M):
            out += [("initial_states", 0, f"mixture_{k}", f) for f in self.latent]
        for k in range(self.M):
            out.append(("mixture_weights", 0, f"mixture_{k}", "-"))
        for k in range(self.M):
            for i, a in enumerate(self.latent):
                for b in self.latent[: i + 1]:
                    out.append(("initial_cholcovs", 0, f"mixture_{k}", f"{a}-{b}"))
        for f in self.latent:
            for t in range(self.T - 1):
                out += [("transition", t, f, n) for n in self.trans_names[f]]
        return out

    def lower_bounds(self):
        d = self.opts["bounds_distance"]
        out = {}
        for lab in self.labels():
            cat, _, _, n2 = lab
            tight = cat in ("meas_sds", "shock_sds") or (
                cat == "initial_cholcovs" and n2 in {f"{f}-{f}" for f in self.latent}
            )
            out[lab] = d if tight else -np.inf
        return out

    # -------------------------------------------------- parameters

    def parse(self, v):
        """v maps labels to values."""
        L, F = self.latent, self.allf
        P = {
            "loadings": np.array(
                [[v[("loadings", t, n, f)] if f in facs else 0.0 for f in L] for t, n, _, facs, _ in self.updates]
            ).reshape(len(self.updates), len(L)),
            "controls": np.array(
                [[v[("controls", t, n, c)] for c in self.controls] for t, n, _, _, _ in self.updates]
            ).reshape(len(self.updates), len(self.controls)),
            "meas_sds": np.array([v[("meas_sds", t, n, "-")] for t, n, _, _, _ in self.updates]),
            "shock_sds": np.array([[v[("shock_sds", t, f, "-")] for f in L] for t in range(self.T - 1)]).reshape(
                self.T - 1, len(L)
            ),
            "means": np.array([[v[("initial_states", 0, f"mixture_{k}", f)] for f in L] for k in range(self.M)]),
            "weights": np.array([v[("mixture_weights", 0, f"mixture_{k}", "-")] for k in range(self.M)]),
            "trans": [
                {f: {n: v[("transition", t, f, n)] for n in self.trans_names[f]} for f in L}
                for t in range(self.T - 1)
            ],
        }
        chols = np.zeros((self.M, len(L), len(L)))
        for k in range(self.M):
            for i, a in enumerate(L):
                for j, b in enumerate(L[: i + 1]):
                    chols[k, i, j] = v[("initial_cholcovs", 0, f"mixture_{k}", f"{a}-{b}")]
        P["covs"] = chols @ chols.transpose(0, 2, 1)
        scale, const = np.ones((self.T, len(F))), np.zeros((self.T, len(F)))
        for t in range(self.T):
            for f in self.anchored:
                n = f"{self.outcomes[f]}_{f}"
                scale[t, F.index(f)] = v[("loadings", t, n, f)]
                if not self.anch.get("ignore_constant_when_anchoring", False):
                    const[t, F.index(f)] = v[("controls", t, n, "constant")]
        P["scale"], P["const"] = scale, const
        return P

    def arrays(self, df):
        """Measurements (U, n), controls (T, n, C), observed factors (T, n, O), ids.

        df: frame indexed by (id, period in 0..T-1), possibly unbalanced.
        """
        ids = sorted(set(df.index.get_level_values(0)))
        n = len(ids)
        rows = {k: pos for pos, k in enumerate(df.index)}
        cols = {c: df[c].to_numpy() for c in df.columns}

        def get(c, i, t):
            pos = rows.get((i, t))
            return float("nan") if pos is None else float(cols[c][pos])

        meas = np.array([[get(var, i, t) for i in ids] for t, _, var, _, _ in self.updates]).reshape(-1, n)
        ctrl = np.ones((self.T, n, len(self.controls)))
        obs = np.zeros((self.T, n, len(self.observed)))
        for t in range(self.T):
            for j, i in enumerate(ids):
                for k, c in enumerate(self.controls):
                    if c != "constant":
                        ctrl[t, j, k] = get(c, i, t)
                for k, c in enumerate(self.observed):
                    obs[t, j, k] = get(c, i, t)
        return meas, ctrl, obs, ids

    # -------------------------------------------------- transition

    def next_states(self, P, t, S):
        """Unanchored next latent states from unanchored current states and observed."""
        A = S * P["scale"][t] + P["const"][t]
        L = len(self.latent)
        out = np.stack(
            [
                trans_value(self.model["factors"][f]["transition_function"], f, self.allf, A, P["trans"][t][f])
                + np.zeros(A.shape[:-1])
                for f in self.latent
            ],
            axis=-1,
        )
        return (out - P["const"][t + 1, :L]) / P["scale"][t + 1, :L]

    def predict(self, P, t, mean, cov, obs):
        """mean (n, M, L), cov (n, M, L, L), obs (n, O) -> predicted mean, cov."""
        L = len(self.latent)
        kappa = self.opts["sigma_points_scale"]
        chol = np.linalg.cholesky(cov)
        pts = [mean]
        for j in range(L):
            pts.append(mean + math.sqrt(kappa + L) * chol[..., j])
        for j in range(L):
            pts.append(mean - math.sqrt(kappa + L) * chol[..., j])
        pts = np.stack(pts, axis=-2)  # n, M, S, L
        w = np.full(2 * L + 1, 0.5 / (L + kappa))
        w[0] = kappa / (L + kappa)
        ob = np.broadcast_to(obs[:, None, None, :], pts.shape[:-1] + (obs.shape[1],))
        tr = self.next_states(P, t, np.concatenate([pts, ob], axis=-1))
        m = np.einsum("s,nmsl->nml", w, tr)
        dev = tr - m[:, :, None, :]
        c = np.einsum("s,nmsi,nmsj->nmij", w, dev, dev) + np.diag(P["shock_sds"][t] ** 2)
        return m, c

    # -------------------------------------------------- filter

    def filter(self, P, meas, ctrl, obs):
        U, n, L = len(self.updates), meas.shape[1], len(self.latent)
        mean = np.broadcast_to(P["means"], (n, self.M, L)).copy()
        cov = np.broadcast_to(P["covs"], (n, self.M, L, L)).copy()
        lw = np.broadcast_to(np.log(P["weights"]), (n, self.M)).copy()
        out = {
            "contribs": np.zeros((U, n)),
            "means": np.zeros((U, n, self.M, L)),
            "covs": np.zeros((U, n, self.M, L, L)),
            "logw": np.zeros((U, n, self.M)),
            "resid": np.full((U, n, self.M), np.nan),
            "sds": np.full((U, n, self.M), np.nan),
            "filtered": {},
            "end_of_period": {},
        }
        u = 0
        for t in range(self.T):
            kept = None
            while u < U and self.updates[u][0] == t:
                lam, purpose = P["loadings"][u], self.updates[u][4]
                y = meas[u]
                seen = np.isfinite(y)
                c = np.where(seen[:, None], ctrl[t], 0.0)
                fit = mean @ lam + (c @ P["controls"][u])[:, None]
                res = np.where(seen[:, None], y[:, None] - fit, 0.0)
                F = np.einsum("i,nmij,j->nm", lam, cov, lam) + P["meas_sds"][u] ** 2
                ll = -0.5 * (LOG2PI + np.log(F) + res**2 / F)
                joint = ll + lw
                tot = logsumexp(joint, axis=1) if self.M > 1 else ll[:, 0]
                out["contribs"][u] = np.where(seen, tot, 0.0)
                if self.M > 1:
                    lw = np.where(seen[:, None], joint - tot[:, None], lw)
                if purpose == "measurement":
                    K = cov @ lam / F[..., None]
                    nm = mean + K * res[..., None]
                    nc = cov - K[..., :, None] * K[..., None, :] * F[..., None, None]
                    mean = np.where(seen[:, None, None], nm, mean)
                    cov = np.where(seen[:, None, None, None], nc, cov)
                out["means"][u], out["covs"][u], out["logw"][u] = mean, cov, lw
                out["resid"][u] = np.where(seen[:, None], res, np.nan)
                out["sds"][u] = np.where(seen[:, None], np.sqrt(F), np.nan)
                if purpose == "measurement":
                    kept = (np.exp(lw)[..., None] * mean).sum(axis=1)
                u += 1
            if kept is not None:
                out["filtered"][t] = kept
            out["end_of_period"][t] = (np.exp(lw)[..., None] * mean).sum(axis=1)
            if t < self.T - 1:
                mean, cov = self.predict(P, t, mean, cov, obs[t])
        out["total"] = out["contribs"].sum(axis=0)
        return out

    def loglike(self, v, df):
        P = self.parse(v)
        meas, ctrl, obs, ids = self.arrays(df)
        return self.filter(P, meas, ctrl, obs), ids

    # -------------------------------------------------- exact oracle (linear models)

    def is_linear(self):
        ok = True
        for f in self.latent:
            s = self.model["factors"][f]["transition_function"]
            ok &= s in ("linear", "constant") or (callable(s) and s._mc_kind[0] == "c_own")
        return ok

    def exact_total(self, P, meas, ctrl, obs):
        """Log density from the joint normal distribution of all data of an individual.

        No recursion over updates: states of all periods are stacked into one normal
        vector; anchoring outcomes enter by their conditional density given the
        measurements of the same and earlier periods.
        """
        n, L = meas.shape[1], len(self.latent)
        U = len(self.updates)
        tot = np.zeros(n)
        for i in range(n):
            per_comp = np.zeros(self.M)
            for k in range(self.M):
                # stacked state vector of length T * L as affine function of the basis
                N = L * self.T
                mu = np.zeros(N)
                B = np.zeros((N, N))  # loadings on (initial deviation, shocks 0..T-2)
                mu[:L] = P["means"][k]
                B[:L, :L] = np.linalg.cholesky(P["covs"][k])
                for t in range(self.T - 1):
                    o = obs[t, i]
                    zero = np.concatenate([np.zeros(L), o])
                    base = self.next_states(P, t, zero)
                    A = np.stack(
                        [self.next_states(P, t, np.concatenate([e, o])) - base for e in np.eye(L)], axis=1
                    )
                    s, e = slice(t * L, (t + 1) * L), slice((t + 1) * L, (t + 2) * L)
                    mu[e] = base + A @ mu[s]
                    B[e] = A @ B[s]
                    B[e, e] += np.diag(P["shock_sds"][t])
                S = B @ B.T
                rows = [u for u in range(U) if np.isfinite(meas[u, i])]
                H = np.zeros((len(rows), N))
                y = np.zeros(len(rows))
                R = np.zeros(len(rows))
                for r, u in enumerate(rows):
                    t = self.updates[u][0]
                    H[r, t * L : (t + 1) * L] = P["loadings"][u]
                    y[r] = meas[u, i] - ctrl[t, i] @ P["controls"][u]
                    R[r] = P["meas_sds"][u] ** 2
                C = H @ S @ H.T + np.diag(R)
                m = H @ mu
                ismeas = [r for r, u in enumerate(rows) if self.updates[u][4] == "measurement"]
                ll = _mvn(y[ismeas], m[ismeas], C[np.ix_(ismeas, ismeas)])
                for r, u in enumerate(rows):
                    if self.updates[u][4] == "anchoring":
                        t = self.updates[u][0]
                        before = [q for q in ismeas if self.updates[rows[q]][0] <= t]
                        ll += _mvn(y[before + [r]], m[before + [r]], C[np.ix_(before + [r], before + [r])])
                        ll -= _mvn(y[before], m[before], C[np.ix_(before, before)])
                per_comp[k] = math.log(P["weights"][k]) + ll
            tot[i] = logsumexp(per_comp, axis=0) if self.M > 1 else per_comp[0] - math.log(P["weights"][0])
        return tot


def _mvn(y, m, C):
    if len(y) == 0:
        return 0.0
    ch = np.linalg.cholesky(C)
    z = np.linalg.solve(ch, y - m)
    return -0.5 * (len(y) * LOG2PI + z @ z) - np.log(np.diag(ch)).sum()
