"""Controlled stand-in for numpy's random module functions.

Every source of randomness the subcolumn generator can use (np.random.permutation / shuffle / choice
/ gamma, and Generators made with default_rng) is answered by the explorer, which enumerates the
answers.  ``perms`` selects the alphabet of permutations: 'all' (n!) or 'cyc' (identity, reversal and
rotations), the latter for larger n together with a deviation bound.
"""
import contextlib
import itertools

import numpy as np

_PERMS = {}


def perm_alphabet(n, mode):
    key = (n, mode)
    if key not in _PERMS:
        ident = tuple(range(n))
        if mode == "all" or n <= 3:
            ps = list(itertools.permutations(ident))
        else:
            ps = [ident, ident[::-1]]
            for r in range(1, n):
                p = ident[r:] + ident[:r]
                if p not in ps:
                    ps.append(p)
        _PERMS[key] = [np.array(p, dtype=int) for p in ps]
    return _PERMS[key]


class RandomStub:
    def __init__(self, ctx, perms="all", gamma_alphabet=(1.0,), uniform_alphabet=(0.0, 0.5, 0.999)):
        self.ctx = ctx
        self.perms = perms
        self.gammas = tuple(gamma_alphabet)
        self.uniforms = tuple(uniform_alphabet)
        self.calls = 0
        self.gamma_calls = []      # (shape, scale) of every gamma request

    # -- permutations --------------------------------------------------------------
    def _perm(self, n):
        self.calls += 1
        n = int(n)
        if n <= 1:
            return np.arange(n)
        alpha = perm_alphabet(n, self.perms)
        return alpha[self.ctx.choose(len(alpha), "perm%d" % n)].copy()

    def permutation(self, x, *a, **k):
        if isinstance(x, (int, np.integer)):
            return self._perm(x)
        x = np.asarray(x)
        return x[self._perm(x.shape[0])]

    permuted = permutation

    def shuffle(self, x, *a, **k):
        p = self._perm(len(x))
        x[:] = np.asarray(x)[p]

    def choice(self, a, size=None, replace=True, p=None, **k):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if size is None:
            self.calls += 1
            return arr[self.ctx.choose(len(arr), "choice")]
        n = int(np.prod(size))
        if replace:
            self.calls += 1
            return np.array([arr[self.ctx.choose(len(arr), "choice")] for _ in range(n)]).reshape(size)
        if n > len(arr):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        return arr[self._perm(len(arr))[:n]].reshape(size)

    # -- continuous draws ----------------------------------------------------------
    def gamma(self, shape, scale=1.0, size=None):
        """Draws are enumerated as multiples of the distribution mean shape*scale."""
        self.calls += 1
        self.gamma_calls.append((float(np.mean(shape)), float(np.mean(scale))))
        mean = np.asarray(shape, dtype=float) * np.asarray(scale, dtype=float)
        if size is None:
            size = np.shape(mean)
        out = np.empty(size, dtype=float)
        flat = out.reshape(-1)
        for i in range(flat.size):
            g = self.gammas[self.ctx.choose(len(self.gammas), "gamma")]
            flat[i] = g * (mean if np.ndim(mean) == 0 else mean.reshape(-1)[i % mean.size])
        return out if out.ndim else float(out)

    def standard_gamma(self, shape, size=None, **k):
        return self.gamma(shape, 1.0, size)

    def random(self, size=None):
        self.calls += 1
        if size is None:
            return self.uniforms[self.ctx.choose(len(self.uniforms), "uniform")]
        # a vector of uniforms is enumerated through the order of its entries (ties have probability zero)
        n = int(np.prod(size))
        return ((self._perm(n) + 0.5) / max(n, 1)).reshape(size)

    random_sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self

    def seed(self, *a, **k):
        return None


NAMES = ("permutation", "shuffle", "choice", "gamma", "standard_gamma", "random", "random_sample", "rand",
         "default_rng", "RandomState", "seed")


@contextlib.contextmanager
def controlled(stub):
    saved = {n: getattr(np.random, n) for n in NAMES}
    for n in NAMES:
        setattr(np.random, n, getattr(stub, n))
    try:
        yield stub
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
