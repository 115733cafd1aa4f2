"""Controlled randomness.

Every route by which the code under test can draw random numbers through numpy's
global generator (numpy.random.*, scipy.stats.*.rvs, numpy.random.default_rng) is
routed through one object.  While a ``Script`` is active the draws are answered from
the script: one flat stream of scalars per *kind* of draw (gaussian, uniform, laplace).
The kinds are independent, so the order in which the code asks for different kinds does
not matter; within a kind scalars are handed out in order.  With no script active the
draws are the ordinary ones.

``install()`` has to run before the package under test is imported, so that names bound
at import time (``from numpy.random import randn``) are the controlled ones too.
"""
import math

import numpy as np


class Exhausted(Exception):
    """The code under test asked for more random numbers than the behaviour needs."""


class Unscripted(Exception):
    """The code under test drew from a distribution the algorithms do not use."""


class Script:
    """Finite streams of scalars, by kind.  ``used`` counts what was handed out."""

    def __init__(self, g=(), u=(), l=(), endless=None):
        self.streams = {"g": list(g), "u": list(u), "l": list(l)}
        self.used = {"g": 0, "u": 0, "l": 0}
        self.endless = endless  # kind -> function(index) used past the end

    def take(self, kind, size):
        n = 1 if size is None else int(np.prod(size))
        i = self.used[kind]
        s = self.streams[kind]
        if i + n > len(s):
            if self.endless and kind in self.endless:
                s.extend(self.endless[kind](k) for k in range(len(s), i + n))
            else:
                raise Exhausted(
                    f"draw {i + n} of kind '{kind}' requested, the behaviour needs {len(s)}"
                )
        self.used[kind] = i + n
        v = s[i : i + n]
        if size is None:
            return float(v[0])
        return np.array(v, dtype=float).reshape(size)

    def leftovers(self):
        return {k: len(s) - self.used[k] for k, s in self.streams.items()}


_active = None


class scripted:
    """Context manager: answer random draws from ``script``."""

    def __init__(self, script):
        self.script = script

    def __enter__(self):
        global _active
        self.old = _active
        _active = self.script
        return self.script

    def __exit__(self, *exc):
        global _active
        _active = self.old
        return False


def _bshape(size, *args):
    if size is not None:
        return size
    shp = np.broadcast(*args).shape if args else ()
    return None if shp == () else shp


def _neglog(u):
    return -math.log(u) if np.isscalar(u) else -np.log(u)


class _Mixin:
    """Scripted versions of the draws; falls through to numpy when no script is active."""

    def standard_normal(self, size=None, *a, **k):
        if _active is None:
            return super().standard_normal(size, *a, **k)
        return _active.take("g", size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if _active is None:
            return super().normal(loc, scale, size)
        return loc + scale * _active.take("g", _bshape(size, loc, scale))

    def uniform(self, low=0.0, high=1.0, size=None):
        if _active is None:
            return super().uniform(low, high, size)
        return low + (np.asarray(high) - low)[()] * _active.take("u", _bshape(size, low, high))

    def standard_exponential(self, size=None, *a, **k):
        if _active is None:
            return super().standard_exponential(size, *a, **k)
        return _neglog(_active.take("u", size))

    def exponential(self, scale=1.0, size=None):
        if _active is None:
            return super().exponential(scale, size)
        return scale * _neglog(_active.take("u", _bshape(size, scale)))

    def laplace(self, loc=0.0, scale=1.0, size=None):
        if _active is None:
            return super().laplace(loc, scale, size)
        return loc + scale * _active.take("l", _bshape(size, loc, scale))

    def random(self, size=None, *a, **k):
        if _active is None:
            return super().random(size, *a, **k)
        return _active.take("u", size)


class ControlledState(_Mixin, np.random.RandomState):
    def randn(self, *dims):
        if _active is None:
            return super().randn(*dims)
        return _active.take("g", dims if dims else None)

    def rand(self, *dims):
        if _active is None:
            return super().rand(*dims)
        return _active.take("u", dims if dims else None)

    def random_sample(self, size=None):
        if _active is None:
            return super().random_sample(size)
        return _active.take("u", size)

    def seed(self, *a, **k):
        if _active is None:
            return super().seed(*a, **k)
        if (a and a[0] is not None) or k.get("seed") is not None:
            raise Unscripted(f"the random numbers are seeded again {a or k}: draws are not fresh")
        return None


class ControlledGenerator(_Mixin, np.random.Generator):
    """stale: made with a seed used before, so that it repeats the draws of another generator."""

    stale = False

    def __getattribute__(self, name):
        if _active is not None and not name.startswith("_") and name != "stale" and self.stale is not False:
            raise Unscripted(f"draws from a generator that is seeded with {self.stale} over and over: draws are not fresh")
        return super().__getattribute__(name)


_seeds = set()


def default_rng(seed=None):
    if isinstance(seed, np.random.Generator):
        return seed
    fixed = isinstance(seed, (int, np.integer))
    gen = ControlledGenerator(np.random.PCG64(int(seed) if fixed else 1))
    if fixed:
        if int(seed) in _seeds:
            gen.stale = int(seed)
        _seeds.add(int(seed))
    return gen


def _forbid(name):
    def draw(self, *a, **k):
        if _active is None:
            return getattr(super(ControlledState, self), name)(*a, **k)
        raise Unscripted(f"unexpected random draw: {name}")

    return draw


for _n in (
    "standard_t standard_cauchy poisson gamma beta choice shuffle permutation randint "
    "random_integers multivariate_normal chisquare logistic binomial triangular"
).split():
    setattr(ControlledState, _n, _forbid(_n))

_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    ctl = ControlledState(12345)
    np.random.mtrand._rand = ctl
    for name in dir(np.random):
        if name.startswith("_") or not hasattr(np.random.RandomState, name):
            continue
        fn = getattr(ctl, name, None)
        if callable(fn):
            setattr(np.random, name, fn)
            if hasattr(np.random.mtrand, name):
                setattr(np.random.mtrand, name, fn)
    np.random.ranf = np.random.sample = ctl.random_sample
    np.random.default_rng = default_rng
