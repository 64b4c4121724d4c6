"""A stand-in for the package's random generator whose every answer is decided by the harness.

All methods reduce to unit(): the next number in (0,1), taken from a callable supplied by the explorer.
Discrete methods ask pick(n).  Works for any of the numpy Generator methods the package may use, so a
rewrite from rng.uniform(0, 1) to rng.random() does not matter.
"""
import numpy as np
from scipy.special import ndtri


class FakeRNG:
    def __init__(self, unit, pick=None):
        self._u = unit
        self._pick = pick or (lambda n: int(min(n - 1, np.floor(unit() * n))))
        self.calls = []

    def _arr(self, size, f):
        if size is None:
            return f()
        shape = (size,) if np.isscalar(size) else tuple(size)
        out = np.array([f() for _ in range(int(np.prod(shape)))])
        return out.reshape(shape)

    def _b(self, size, *args):
        if size is None and any(np.ndim(a) for a in args):
            return np.broadcast(*args).shape
        return size

    def random(self, size=None):
        self.calls.append(("random", size))
        return self._arr(size, self._u)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.calls.append(("uniform", size))
        size = self._b(size, low, high)
        return low + (np.asarray(high) - low) * self._arr(size, self._u) if np.ndim(low) or np.ndim(high) \
            else low + (high - low) * self._arr(size, self._u)

    def standard_normal(self, size=None):
        self.calls.append(("normal", size))
        return self._arr(size, lambda: float(ndtri(self._u())))

    def normal(self, loc=0.0, scale=1.0, size=None):
        size = self._b(size, loc, scale)
        return loc + scale * self.standard_normal(size)

    def exponential(self, scale=1.0, size=None):
        self.calls.append(("exponential", size))
        return scale * self._arr(size, lambda: float(-np.log1p(-self._u())))

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def integers(self, low, high=None, size=None, endpoint=False, dtype=int):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + bool(endpoint)
        self.calls.append(("integers", n))
        return self._arr(size, lambda: int(low) + self._pick(n))

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        pool = np.arange(a) if np.isscalar(a) and not isinstance(a, str) else a
        n = len(pool)
        self.calls.append(("choice", n))
        if p is not None:
            c = np.cumsum(p)

            def one():
                return int(min(n - 1, np.searchsorted(c, self._u() * c[-1], side="right")))
        else:
            def one():
                return self._pick(n)
        if size is None:
            return pool[one()]
        num = int(np.prod(size))
        if replace:
            idx = [one() for _ in range(num)]
        else:
            left, idx = list(range(n)), []
            for _ in range(num):
                idx.append(left.pop(self._pick(len(left))))
        res = [pool[i] for i in idx]
        return np.array(res).reshape(size) if not np.isscalar(size) else np.array(res)

    def permutation(self, x):
        x = np.arange(x) if np.isscalar(x) else np.array(x)
        left, out = list(range(len(x))), []
        while left:
            out.append(left.pop(self._pick(len(left))))
        return x[out]

    def shuffle(self, x):
        y = self.permutation(x)
        for i in range(len(x)):
            x[i] = y[i]

    def multivariate_normal(self, mean, cov, size=None, **kw):
        n = len(mean)
        L = np.linalg.cholesky(np.asarray(cov))
        if size is None:
            return np.asarray(mean) + L @ self.standard_normal(n)
        return np.array([np.asarray(mean) + L @ self.standard_normal(n) for _ in range(int(np.prod(size)))])

    def _dist(self, ppf, size):
        return self._arr(size, lambda: float(ppf(self._u())))

    def poisson(self, lam=1.0, size=None):
        import scipy.stats as st
        return self._arr(size, lambda: int(st.poisson(lam).ppf(self._u())))

    def multinomial(self, n, pvals, size=None):
        def one():
            c = np.cumsum(pvals)
            out = np.zeros(len(pvals), int)
            for _ in range(int(n)):
                out[min(len(pvals) - 1, np.searchsorted(c, self._u() * c[-1], side="right"))] += 1
            return out
        if size is None:
            return one()
        return np.array([one() for _ in range(int(np.prod(size)))])

    def binomial(self, n, p, size=None):
        import scipy.stats as st
        return self._arr(size, lambda: int(st.binom(n, p).ppf(self._u())))

    def gamma(self, shape, scale=1.0, size=None):
        import scipy.stats as st
        return self._dist(st.gamma(shape, scale=scale).ppf, size)

    def beta(self, a, b, size=None):
        import scipy.stats as st
        return self._dist(st.beta(a, b).ppf, size)

    def vonmises(self, mu, kappa, size=None):
        import scipy.stats as st
        return self._dist(st.vonmises(kappa, loc=mu).ppf, size)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(self.normal(mean, sigma, size))


class installed:
    """with installed(fake): bilby's generator is the fake one"""

    def __init__(self, fake):
        self.fake = fake

    def __enter__(self):
        import bilby.core.utils.random as r
        self.mod, self.old = r, r.__dict__.get("rng")
        self.generator = getattr(r, "Generator", None)
        if hasattr(self.generator, "rng"):
            self.oldg = self.generator.rng
            self.generator.rng = self.fake
        r.rng = self.fake
        return self.fake

    def __exit__(self, *a):
        if self.old is None:
            del self.mod.rng
        else:
            self.mod.rng = self.old
        if hasattr(self.generator, "rng"):
            self.generator.rng = self.oldg
        return False


def from_list(values):
    it = iter(values)
    return FakeRNG(lambda: next(it))
