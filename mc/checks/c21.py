"""C21: Kalman update and predict steps are the square-root form of Bayes' rule."""
import itertools

from mc import specs

ID = "C21"
RULE = (
    "(a) one update: every belief of a lattice (means, triangular factors with positive, negative and zero diagonal and every sign of the "
    "off-diagonal) x loading vectors (incl. zeros and signs) x measurement errors x measurements (incl. missing) x control effects x "
    "numbers of mixture components x weights: posterior mean, covariance, weights, log density, triangularity, contraction, debug "
    "information; (a') the same in units of 1e-5 to 1e3 for states and measurement errors and for residuals of 0 to 40 "
    "standard deviations; (b) every ordering of every selection of up to three updates (some missing) from every base belief: equal to the joint "
    "posterior and density; (c) one predict: beliefs x transition functions x shocks x anchoring x observed factors x sigma point scales: "
    "unscented transform in covariance form; (d) predict after update paths of depth two.  states = (belief, input) pairs, "
    "transitions = steps executed."
)
BOUNDS = {
    "quick": "1-3 factors, 1-3 mixture components; factor lattice 4 diagonal x 3 off-diagonal values (3 factors: 2 x 2), 3 means; 3 loadings per factor; 3 error sds; 5 measurements; all orders of up to 3 updates",
    "thorough": "the same with 5 diagonal values, 4 factors, and all orders of up to 4 updates",
}
ASSUMPTIONS = ["measurement error and predictive variance are not both zero", "mixture weights are positive"]

DIAG = {1: [0.4, 1.0, 2.5, -1.3, 0.0], 2: [0.5, 1.7, -0.8, 0.0], 3: [0.6, -1.4], 4: [0.7, -1.2]}
OFF = {1: [], 2: [-0.9, 0.0, 0.6], 3: [-0.5, 0.8], 4: [0.5]}
MEAS = [None, -2.0, 0.0, 0.4, 7.0]


def beliefs(L, cap=None):
    """All (mean, upper triangular factor) of the lattice."""
    import numpy as np

    pairs = [(i, j) for i in range(L) for j in range(i + 1, L)]
    out = []
    for k, (diag, off) in enumerate(itertools.product(itertools.product(DIAG[L], repeat=L), itertools.product(OFF[L], repeat=len(pairs)))):
        u = np.diag(np.array(diag, dtype=float))
        for (i, j), v in zip(pairs, off):
            u[i, j] = v
        for m in ([0.0, -1.3, 2.1] if L < 3 else [0.7]):
            mean = np.array([m * (1 + 0.5 * f) - 0.3 * f * (-1) ** k for f in range(L)])
            out.append((mean, u))
    return out


def cases(tier):
    out = []
    for L in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for M in (1, 2, 3):
            out.append({"label": f"update L={L} M={M}", "mode": "update", "L": L, "M": M})
            if L < 4:
                out.append({"label": f"scales L={L} M={M}", "mode": "scales", "L": L, "M": M})
            out.append({"label": f"orders L={L} M={M}", "mode": "orders", "L": L, "M": M, "depth": 3 if tier == "quick" or L > 2 else 4})
            for obs in (0, 1, 2):
                out.append({"label": f"predict L={L} M={M} obs={obs}", "mode": "predict", "L": L, "M": M, "obs": obs})
    return out


def run(payload, res):
    {"update": run_update, "scales": run_scales, "orders": run_orders, "predict": run_predict}[payload["mode"]](payload, res)


def loading_vectors(L):
    vals = [0.0, 1.0, -0.7] if L < 3 else [0.0, 1.3, -0.6]
    return list(itertools.product(vals, repeat=L))


def batch(L, M):
    """Beliefs arranged as (n, M, ...): component m of row k is belief k + 7 m."""
    import numpy as np

    bs = beliefs(L)
    n = len(bs)
    states = np.array([[bs[(k + 7 * m) % n][0] + 0.3 * m for m in range(M)] for k in range(n)])
    chols = np.array([[bs[(k + 7 * m) % n][1] for m in range(M)] for k in range(n)])
    w = np.array([[1 + (k % 3) * m + 0.1 * k * (m == 1) for m in range(M)] for k in range(n)], dtype=float)
    w = w / w.sum(axis=1, keepdims=True)
    return states, chols, np.log(w)


def ref_update(mean, cov, logw, lam, ceff, sd, y):
    """y (n,) with nan; ceff (n,)."""
    import numpy as np
    from scipy.special import logsumexp

    seen = np.isfinite(y)
    r = np.where(seen, y, 0.0)[:, None] - (mean @ lam + np.where(seen, ceff, 0.0)[:, None])
    F = np.einsum("i,nmij,j->nm", lam, cov, lam) + sd**2
    K = cov @ lam / F[..., None]
    nm = mean + K * r[..., None]
    nc = cov - np.einsum("nmi,nmj,nm->nmij", K, K, F)
    ll = -0.5 * (np.log(2 * np.pi * F) + r**2 / F)
    joint = ll + logw
    tot = logsumexp(joint, axis=1)
    nw = joint - tot[:, None]
    return (
        np.where(seen[:, None, None], nm, mean),
        np.where(seen[:, None, None, None], nc, cov),
        np.where(seen[:, None], nw, logw),
        np.where(seen, tot, 0.0),
        np.where(seen[:, None], r, np.nan),
        np.where(seen[:, None], np.sqrt(F), np.nan),
    )


def covs(chols):
    import numpy as np

    return np.swapaxes(chols, -1, -2) @ chols


def triangular(res, chols, where):
    import numpy as np

    low = np.abs(np.tril(chols, -1)).max() if chols.shape[-1] > 1 else 0.0
    res.check(low < 1e-12, "triangular", f"{where}: entry {low} below the diagonal")


def setup():
    import jax.numpy as jnp

    from skillmodels import kalman_filters, likelihood_function  # noqa: F401  (double precision)

    return jnp, kalman_filters


def run_update(payload, res):
    import numpy as np

    jnp, kf = setup()
    L, M = payload["L"], payload["M"]
    states, chols, logw = batch(L, M)
    n0 = len(states)
    # every belief with every measurement
    k = len(MEAS)
    S, C, W = (np.repeat(a, k, axis=0) for a in (states, chols, logw))
    y = np.array([np.nan if m is None else m for m in MEAS] * n0)
    n = len(y)
    cov = covs(C)
    for lam, sd, nc in itertools.product(loading_vectors(L), (0.0, 0.3, 1.5), (0, 1, 2)):
        if nc != 1 and sd != 0.3:
            continue
        lam_ = np.array(lam)
        F = np.einsum("i,nmij,j->nm", lam_, cov, lam_) + sd**2
        keep = np.flatnonzero(F.min(axis=1) > 1e-6)
        if len(keep) == 0:
            continue
        cp = np.array([0.8, -1.1][:nc])
        ctrl = np.array([[1.0, specs.val(-1, 1, "c21", i)][:nc] for i in range(n)]).reshape(n, nc)
        # missing measurements may come with missing controls
        raw = ctrl.copy()
        raw[np.isnan(y) & (np.arange(n) % 2 == 0)] = np.nan
        args = {
            "states": jnp.array(S[keep]),
            "upper_chols": jnp.array(C[keep]),
            "loadings": jnp.array(lam_),
            "control_params": jnp.array(cp),
            "meas_sd": sd,
            "measurements": jnp.array(y[keep]),
            "controls": jnp.array(raw[keep]),
            "log_mixture_weights": jnp.array(W[keep]),
        }
        where = f"loadings {lam} sd {sd} controls {nc}"
        want = ref_update(S[keep], cov[keep], W[keep], lam_, ctrl[keep] @ cp, sd, y[keep])
        for debug in (False, True):
            out = kf.kalman_update(**args, debug=debug)
            new_s, new_c, new_w, ll, info = out
            new_s, new_c, new_w, ll = (np.asarray(a) for a in (new_s, new_c, new_w, ll))
            res.close(new_s, want[0], "mean", where, rtol=1e-7, atol=1e-9)
            res.close(covs(new_c), want[1], "cov", where, rtol=1e-7, atol=1e-9)
            res.close(new_w, want[2], "weights", where, rtol=1e-7, atol=1e-8)
            res.close(np.exp(new_w).sum(axis=1), np.ones(len(keep)), "normalized", where, rtol=1e-9)
            res.close(ll, want[3], "density", where, rtol=1e-7, atol=1e-8)
            triangular(res, new_c, where)
            eig = np.linalg.eigvalsh(cov[keep] - covs(new_c))
            res.check(eig.min() > -1e-9, "contraction", f"{where}: covariance grows by {eig.min()}")
            gone = np.isnan(y[keep])
            res.check(bool((new_s[gone] == S[keep][gone]).all() and (new_c[gone] == C[keep][gone]).all() and (ll[gone] == 0).all() and (new_w[gone] == W[keep][gone]).all()), "missing", f"{where}: a missing measurement changes the belief")
            res.transitions += len(keep)
            if debug:
                res.close(np.asarray(info["residuals"]), want[4], "residuals", where, rtol=1e-8, atol=1e-9)
                res.close(np.asarray(info["residual_sds"]), want[5], "residual-sds", where, rtol=1e-8, atol=1e-9)
                if "log_mixture_weights" in info:
                    res.close(np.asarray(info["log_mixture_weights"]), want[2], "debug-weights", where, rtol=1e-7, atol=1e-8)
        # rows do not influence each other
        if nc == 1 and sd == 0.3:
            half = {key: (v[::-3] if key in ("states", "upper_chols", "measurements", "controls", "log_mixture_weights") else v) for key, v in args.items()}
            sub = kf.kalman_update(**half, debug=False)
            for a, bb, name in zip(sub[:4], (new_s, new_c, new_w, ll), ("mean", "factor", "weights", "density")):
                if name == "factor":
                    a, bb = covs(np.asarray(a)), covs(bb)
                res.close(np.asarray(a), bb[::-3], "rows-" + name, where, rtol=1e-9, atol=1e-10)
        res.states += len(keep)
        res.traces += 2 * len(keep)
        res.saw(np.round(want[3][:5], 5))
    res.sample({"case": payload["label"], "beliefs": n0, "rows per call": n})


SCALES = [1e-5, 1e-2, 1.0, 1e3]
SCORES = [0.0, 1.3, -6.0, 40.0]


def run_scales(payload, res):
    """The same rules hold in any unit of the states and measurements.

    Every belief of the lattice x every scale of its means and factors x every scale of the measurement error x every
    distance of the measurement from its prediction.

    """
    import numpy as np
    from scipy.special import logsumexp

    jnp, kf = setup()
    L, M = payload["L"], payload["M"]
    states, chols, logw = batch(L, M)
    n = len(states)
    cov = covs(chols)
    lams = [v for v in loading_vectors(L) if any(v)][:: 1 if L < 3 else 4]
    for lam, cscale, sscale, score in itertools.product(lams, SCALES, SCALES, SCORES):
        lam_ = np.array(lam)
        sd = 0.7 * sscale
        # square root of the predictive variance from positive terms only
        pred = cscale**2 * np.einsum("i,nmij,j->nm", lam_, cov, lam_)
        F = pred + sd**2
        S, C = cscale * states, cscale * chols
        y = (S @ lam_)[:, 0] + score * np.sqrt(F[:, 0])
        resid = y[:, None] - S @ lam_
        keep = np.arange(n)
        if (np.abs(resid) / np.sqrt(F)).max() > 1e5:
            keep = np.flatnonzero((np.abs(resid) / np.sqrt(F)).max(axis=1) < 1e5)
            if len(keep) == 0:
                continue
        out = kf.kalman_update(
            states=jnp.array(S[keep]), upper_chols=jnp.array(C[keep]), loadings=jnp.array(lam_), control_params=jnp.zeros(1), meas_sd=sd,
            measurements=jnp.array(y[keep]), controls=jnp.ones((len(keep), 1)), log_mixture_weights=jnp.array(logw[keep]), debug=False,
        )
        new_s, new_c, new_w, ll = (np.asarray(a) for a in out[:4])
        where = f"loadings {lam} states x {cscale} sd {sd} score {score}"
        F, r, v = F[keep], resid[keep], pred[keep]
        z = r / np.sqrt(F)
        comp = -0.5 * (np.log(2 * np.pi * F) + z**2) + logw[keep]
        tot = logsumexp(comp, axis=1)
        # rounding errors of the prediction, in standard deviations of the residual
        noise = 1e-14 * (np.abs(S[keep]) @ np.abs(lam_) + np.abs(y[keep])[:, None]) / np.sqrt(F)
        tol = (1e-9 * (1 + z**2) + np.abs(z) * noise + noise**2).max(axis=1)
        res.check(bool((np.abs(ll - tot) <= 1e-8 + tol).all()), "scale-density", f"{where}: {ll[:3]} instead of {tot[:3]}")
        res.check(bool((np.abs(np.exp(new_w) - np.exp(comp - tot[:, None])) <= 1e-8 + 2 * tol[:, None]).all()), "scale-weights", f"{where}: weights {np.exp(new_w[:2])}")
        # states in units of their prior standard deviations
        K = cscale**2 * (cov[keep] @ lam_) / F[..., None]
        unit = cscale * np.sqrt(np.einsum("nmii->nmi", cov[keep])) + 1e-300
        err = np.abs(new_s - (S[keep] + K * r[..., None])) / np.maximum(unit, 1e-3 * cscale)
        res.check(bool((err <= 1e-8 * (1 + np.abs(z[..., None])) + 10 * noise[..., None] + 1e-11 * np.abs(S[keep]).max() / cscale).all()), "scale-mean", f"{where}: means off by {err.max()} standard deviations")
        # what is left of the variance of the measured combination, which may be tiny
        left = np.einsum("nmij,j->nmi", new_c, lam_)
        left = (left**2).sum(axis=-1)
        res.check(bool((np.abs(np.sqrt(left) - np.sqrt(v * sd**2 / F)) <= 1e-6 * np.sqrt(v * sd**2 / F) + 1e-13 * cscale * 10).all()), "scale-measured-sd", f"{where}: {np.sqrt(left)[:2]} instead of {np.sqrt(v * sd**2 / F)[:2]}")
        newcov = cscale**2 * cov[keep] - np.einsum("nmi,nmj,nm->nmij", K, K, F)
        err = np.abs(covs(new_c) - newcov).max() / cscale**2
        res.check(err < 1e-9, "scale-cov", f"{where}: covariance off by {err}")
        res.states += len(keep)
        res.transitions += len(keep)
        res.traces += 1
    res.saw([L, M, len(lams)])
    res.sample({"case": payload["label"], "beliefs": n, "loadings": len(lams)})


UPDATES = {
    1: [((1.0,), 0.5, 0.7), ((-0.6,), 1.2, -1.0), ((0.0,), 0.8, 0.3), ((2.0,), 0.4, None)],
    2: [((1.0, 0.0), 0.5, 0.7), ((0.4, -1.1), 0.9, -1.5), ((1.0, 1.0), 0.3, 2.0), ((0.0, 0.7), 1.1, None)],
    3: [((1.0, 0.0, 0.0), 0.5, 0.7), ((0.4, -1.1, 0.3), 0.9, -1.5), ((0.0, 1.0, 1.0), 0.3, 2.0), ((0.0, 0.7, 0.0), 1.1, None)],
    4: [((1.0, 0.0, 0.0, 0.2), 0.5, 0.7), ((0.4, -1.1, 0.3, 0), 0.9, -1.5), ((0.0, 1.0, 1.0, -1), 0.3, 2.0), ((0.0, 0.7, 0.0, 0), 1.1, None)],
}


def run_orders(payload, res):
    import numpy as np
    from scipy.special import logsumexp

    jnp, kf = setup()
    L, M = payload["L"], payload["M"]
    states, chols, logw = batch(L, M)
    cov = covs(chols)
    n = len(states)
    shift = np.array([specs.val(-1, 1, "c21y", i) for i in range(n)])
    ctrl = np.array([[1.0, specs.val(-1, 1, "c21c", i)] for i in range(n)])

    def step(belief, u):
        lam, sd, y = UPDATES[L][u]
        cp = np.array([0.2 * u, 0.5 - u])
        meas = np.full(n, np.nan) if y is None else y + shift
        s, c, w, ll, _ = kf.kalman_update(
            states=belief[0],
            upper_chols=belief[1],
            loadings=jnp.array(lam),
            control_params=jnp.array(cp),
            meas_sd=sd,
            measurements=jnp.array(meas),
            controls=jnp.array(ctrl),
            log_mixture_weights=belief[2],
            debug=False,
        )
        res.transitions += n
        return (s, c, w, belief[3] + np.asarray(ll))

    def joint(subset):
        """All seen measurements at once."""
        seen = [u for u in subset if UPDATES[L][u][2] is not None]
        if not seen:
            return states, cov, logw, np.zeros(n)
        H = np.array([UPDATES[L][u][0] for u in seen])
        R = np.diag([UPDATES[L][u][1] ** 2 for u in seen])
        y = np.array([[UPDATES[L][u][2] + shift[i] - ctrl[i] @ np.array([0.2 * u, 0.5 - u]) for u in seen] for i in range(n)])
        S = H @ cov @ H.T + R
        r = y[:, None, :] - states @ H.T
        K = cov @ H.T @ np.linalg.inv(S)
        m = states + np.einsum("nmij,nmj->nmi", K, r)
        c = cov - K @ S @ np.swapaxes(K, -1, -2)
        sol = np.linalg.solve(S, r[..., None])[..., 0]
        ll = -0.5 * ((r * sol).sum(axis=-1) + np.linalg.slogdet(2 * np.pi * S)[1])
        tot = logsumexp(ll + logw, axis=1)
        return m, c, ll + logw - tot[:, None], tot

    start = (jnp.array(states), jnp.array(chols), jnp.array(logw), np.zeros(n))
    memo = {(): start}
    for depth in range(1, payload["depth"] + 1):
        for seq in itertools.permutations(range(4), depth):
            memo[seq] = step(memo[seq[:-1]], seq[-1])
            m, c, w, tot = joint(sorted(seq))
            where = f"updates {seq}"
            res.close(np.asarray(memo[seq][0]), m, "mean", where, rtol=1e-7, atol=1e-8)
            res.close(covs(np.asarray(memo[seq][1])), c, "cov", where, rtol=1e-7, atol=1e-8)
            res.close(np.asarray(memo[seq][2]), w, "weights", where, rtol=1e-7, atol=1e-8)
            res.close(memo[seq][3], tot, "density", where, rtol=1e-7, atol=1e-8)
            triangular(res, np.asarray(memo[seq][1]), where)
            res.states += n
            res.traces += 1
            if len(res.outcomes) < 100:
                res.saw(np.round(tot[:3], 5))
    res.sample({"case": payload["label"], "orders": len(memo) - 1, "beliefs": n})


def transitions(L, obs):
    """name -> function(params, states) with L outputs, in terms of numpy-like operations."""
    A = [[0.9 if i == j else 0.3 * (-1) ** (i + j) / (1 + i) for j in range(L + obs)] for i in range(L)]

    def linear(xp):
        def f(params, states):
            return xp.stack([sum(states[..., j] * A[i][j] for j in range(L + obs)) + 0.1 * i + params["fac0"][0] for i in range(L)], axis=-1)

        return f

    def nonlinear(xp):
        def f(params, states):
            last = states[..., L + obs - 1]
            return xp.stack([0.5 * states[..., i] ** 2 - 0.4 * states[..., (i + 1) % L] * last + xp.sin(states[..., i]) + params["fac0"][0] for i in range(L)], axis=-1)

        return f

    def constant(xp):
        def f(params, states):
            return states[..., :L] * 1.0

        return f

    return {"linear": linear, "nonlinear": nonlinear, "constant": constant}


def run_predict(payload, res):
    import numpy as np

    jnp, kf = setup()
    L, M, obs = payload["L"], payload["M"], payload["obs"]
    states, chols, logw = batch(L, M)
    n = len(states)
    A = L + obs
    observed = np.array([[specs.val(-1, 1, "c21o", i, k) for k in range(obs)] for i in range(n)]).reshape(n, obs)
    anchorings = {
        "none": (np.ones((2, A)), np.zeros((2, A))),
        "in": (np.array([[1.5 + 0.2 * k if k < L else 1.0 for k in range(A)], [1.0] * A]), np.array([[0.4 - k if k < L else 0.0 for k in range(A)], [0.0] * A])),
        "both": (np.array([[1.5 - 0.3 * k if k < L else 1.0 for k in range(A)], [0.6 + k if k < L else 1.0 for k in range(A)]]), np.array([[0.4 - k if k < L else 0.0 for k in range(A)], [-0.7 * k + 0.2 if k < L else 0.0 for k in range(A)]])),
    }
    funcs = transitions(L, obs)
    updated = kf.kalman_update(
        states=jnp.array(states), upper_chols=jnp.array(chols), loadings=jnp.array([0.8 - 0.5 * k for k in range(L)]), control_params=jnp.zeros(1),
        meas_sd=0.7, measurements=jnp.array([0.3 + 0.1 * (k % 5) for k in range(n)]), controls=jnp.ones((n, 1)), log_mixture_weights=jnp.array(logw), debug=False,
    )
    sources = {"lattice": (states, chols), "after update": (np.asarray(updated[0]), np.asarray(updated[1]))}
    for (src, (S, C)), (fname, make), (aname, (scal, const)), kappa, shocks in itertools.product(
        sources.items(), funcs.items(), anchorings.items(), (2, 0.5, 1), ("zero", "mixed", "all")
    ):
        if (kappa != 2) + (shocks != "mixed") + (src != "lattice") > 1:
            continue
        sds = np.array({"zero": [0.0] * L, "mixed": [0.5 * k for k in range(L)][::-1], "all": [0.4 + 0.3 * k for k in range(L)]}[shocks])
        params = {f"fac{k}": np.array([0.25 * (k + 1)]) for k in range(L)}
        scaling, weights = kf.calculate_sigma_scaling_factor_and_weights(L, kappa)
        where = f"{src} {fname} anchoring {aname} kappa {kappa} shocks {shocks}"
        res.close(float(scaling), np.sqrt(L + kappa), "scale", where)
        res.close(np.asarray(weights), np.array([kappa] + [0.5] * 2 * L) / (L + kappa), "sigma-weights", where)
        got_s, got_c = kf.kalman_predict(
            states=jnp.array(S), upper_chols=jnp.array(C), sigma_scaling_factor=scaling, sigma_weights=weights,
            transition_info={"func": make(jnp), "columns": {}, "order": ["states", "params"]}, trans_coeffs={k: jnp.array(v) for k, v in params.items()},
            shock_sds=jnp.array(sds), anchoring_scaling_factors=jnp.array(scal), anchoring_constants=jnp.array(const), observed_factors=jnp.array(observed),
        )
        got_s, got_c = np.asarray(got_s), np.asarray(got_c)
        # reference: unscented transform in covariance form
        h = np.sqrt(L + kappa)
        pts = np.concatenate([S[:, :, None, :], S[:, :, None, :] + h * C, S[:, :, None, :] - h * C], axis=2)
        full = np.concatenate([pts, np.broadcast_to(observed[:, None, None, :], pts.shape[:3] + (obs,))], axis=-1)
        out = make(np)(params, full * scal[0] + const[0])
        out = (out - const[1][:L]) / scal[1][:L]
        wts = np.array([kappa] + [0.5] * 2 * L) / (L + kappa)
        mean = np.einsum("s,nmsi->nmi", wts, out)
        dev = out - mean[:, :, None, :]
        cov = np.einsum("s,nmsi,nmsj->nmij", wts, dev, dev) + np.diag(sds**2)
        if res.check(got_s.shape == S.shape and got_c.shape == C.shape, "shape", f"{where}: {got_s.shape} {got_c.shape}"):
            res.close(got_s, mean, "mean", where, rtol=1e-7, atol=1e-8)
            res.close(covs(got_c), cov, "cov", where, rtol=1e-7, atol=1e-8)
            triangular(res, got_c, where)
            if fname == "linear" and aname == "none":
                F = np.array([make(np)(params, np.eye(A)[j]) - make(np)(params, np.zeros(A)) for j in range(L)]).T
                res.close(covs(got_c), F @ covs(C) @ F.T + np.diag(sds**2), "linear-cov", where, rtol=1e-7, atol=1e-8)
        res.states += n
        res.transitions += n
        res.traces += 1
        if len(res.outcomes) < 100:
            res.saw(np.round(mean[1], 5).tolist())
    # any unit of states and shocks
    F = np.array([[0.9 if i == j else 0.3 * (-1) ** (i + j) / (1 + i) for j in range(L)] for i in range(L)])

    def linear(params, states):
        return jnp.stack([sum(states[..., j] * F[i, j] for j in range(L)) for i in range(L)], axis=-1)

    scaling, weights = kf.calculate_sigma_scaling_factor_and_weights(L, 2)
    for cscale, sscale in itertools.product(SCALES, SCALES):
        sds = sscale * np.array([0.4 + 0.3 * k for k in range(L)])
        got_s, got_c = kf.kalman_predict(
            states=jnp.array(cscale * states), upper_chols=jnp.array(cscale * chols), sigma_scaling_factor=scaling, sigma_weights=weights,
            transition_info={"func": linear, "columns": {}, "order": ["states", "params"]}, trans_coeffs={}, shock_sds=jnp.array(sds),
            anchoring_scaling_factors=jnp.ones((2, A)), anchoring_constants=jnp.zeros((2, A)), observed_factors=jnp.array(observed),
        )
        where = f"linear, states x {cscale} shocks x {sscale}"
        want = cscale**2 * F @ covs(chols) @ F.T + np.diag(sds**2)
        res.check(np.abs(np.asarray(got_s) - cscale * states @ F.T).max() <= 1e-9 * cscale, "scale-mean", where)
        unit = np.sqrt(np.einsum("nmii->nmi", want))
        err = np.abs(covs(np.asarray(got_c)) - want) / unit[..., None] / unit[..., None, :]
        res.check(err.max() < 1e-8, "scale-cov", f"{where}: covariance off by {err.max()}")
        res.states += n
        res.transitions += n
        res.traces += 1
    res.sample({"case": payload["label"], "beliefs": n})
