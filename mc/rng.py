"""Scripted random numbers: every answer of numpy.random is an environment step.

Standard normal draws are distinct, generic values that are recorded in a pool; uniform
draws come from a given list.  All entry points answer consistently with the requested
distribution, so the draws can be recovered from whatever is computed with them.
"""
import contextlib
import statistics

import numpy as np

PHI = (5**0.5 - 1) / 2


class Script:
    def __init__(self, uniforms=(), salt=0):
        self.k = 1 + 1000 * salt
        self.pool = []
        self.uniforms = list(uniforms)
        self.u = 0

    # ---- primitive answers
    def z(self, shape):
        n = int(np.prod(shape, dtype=int)) if shape != () else 1
        out = []
        nd = statistics.NormalDist()
        for _ in range(n):
            out.append(nd.inv_cdf(0.01 + 0.98 * ((self.k * PHI) % 1.0)))
            self.k += 1
        self.pool += out
        return np.array(out).reshape(shape) if shape != () else out[0]

    def uni(self, shape):
        n = int(np.prod(shape, dtype=int)) if shape != () else 1
        out = []
        for _ in range(n):
            out.append(self.uniforms[self.u % len(self.uniforms)] if self.uniforms else 0.5)
            self.u += 1
        return np.array(out).reshape(shape) if shape != () else out[0]

    # ---- numpy.random interface
    def normal(self, loc=0.0, scale=1.0, size=None):
        loc, scale = np.asarray(loc, float), np.asarray(scale, float)
        shape = np.broadcast(loc, scale).shape if size is None else as_shape(size)
        return loc + scale * self.z(shape)

    def standard_normal(self, size=None, dtype=None):
        return self.z(as_shape(size))

    def randn(self, *shape):
        return self.z(shape)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, method="cholesky"):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        shape = as_shape(size)
        z = self.z(shape + mean.shape)
        return mean + z @ root(cov).T

    def random(self, size=None):
        return self.uni(as_shape(size))

    random_sample = random

    def rand(self, *shape):
        return self.uni(shape)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.uni(as_shape(size))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        p = np.full(len(a), 1 / len(a)) if p is None else np.asarray(p, float)
        if not np.isclose(p.sum(), 1.0, atol=1e-7) or len(p) != len(a):
            raise ValueError("probabilities do not sum to 1")
        u = self.uni(as_shape(size))
        return a[np.minimum(np.searchsorted(np.cumsum(p), u, side="right"), len(a) - 1)]

    def seed(self, *args, **kwargs):
        return None


def as_shape(size):
    if size is None:
        return ()
    return tuple(int(x) for x in np.atleast_1d(size))


def root(cov):
    """Lower triangular root of a positive semidefinite matrix."""
    n = len(cov)
    L = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            s = cov[i, j] - L[i, :j] @ L[j, :j]
            if i == j:
                L[i, i] = np.sqrt(max(s, 0.0))
            elif L[j, j] > 0:
                L[i, j] = s / L[j, j]
    return L


ENTRY = ["normal", "standard_normal", "randn", "multivariate_normal", "random", "random_sample", "rand", "uniform", "choice", "seed"]


@contextlib.contextmanager
def scripted(script, module):
    """Answer all calls to numpy.random, also those via names imported into module."""
    import numpy.random as nr

    class Gen:
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, name):
            return getattr(script, name)

    originals = {name: getattr(nr, name) for name in ENTRY}
    extra = {"default_rng": nr.default_rng, "RandomState": nr.RandomState}
    in_module = {}
    for key, obj in list(vars(module).items()):
        for name, orig in originals.items():
            if obj is orig or obj == orig:
                in_module[key] = (obj, getattr(script, name))
        for name, orig in extra.items():
            if obj is orig:
                in_module[key] = (obj, Gen)
    try:
        for name in ENTRY:
            setattr(nr, name, getattr(script, name))
        for name in extra:
            setattr(nr, name, Gen)
        for key, (_, new) in in_module.items():
            setattr(module, key, new)
        yield script
    finally:
        for name, orig in {**originals, **extra}.items():
            setattr(nr, name, orig)
        for key, (old, _) in in_module.items():
            setattr(module, key, old)
