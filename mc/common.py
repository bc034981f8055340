"""Helpers the checks share."""
import itertools
import math

import numpy as np

from . import loader
from .engine import Chooser, Violation

_real_rng_attrs = {}


class EnumRng:
    """Stands for the default random generator: every draw is a choice the
    explorer enumerates. Draws that have no finite set of outcomes fall back to
    a fixed generator and set .sampled."""

    def __init__(self, ch, max_fan=720):
        self.ch, self.max_fan = ch, max_fan
        self.sampled = False
        self._g = np.random.default_rng(12345)

    def _perm(self, n):
        items = list(range(n))
        out = []
        while items:
            out.append(items.pop(self.ch.pick(len(items)) if len(items) > 1 else 0))
        return out

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        k = int(high) - int(low)
        if k <= 0:
            raise ValueError('low >= high')
        if k > self.max_fan:
            self.sampled = True
            return self._g.integers(low, high, size=size)
        if size is None:
            return int(low) + (self.ch.pick(k) if k > 1 else 0)
        n = int(np.prod(size))
        return np.array([int(low) + (self.ch.pick(k) if k > 1 else 0) for _ in range(n)], dtype=dtype).reshape(size)

    def shuffle(self, x, axis=0):
        p = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p]
        else:
            x[:] = [x[i] for i in p]

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return np.array(self._perm(int(x)), dtype=np.int64)
        a = np.asarray(x)
        return a[self._perm(len(a))]

    permuted = permutation

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        arr = np.arange(n) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if size is None:
            return arr[self.ch.pick(n) if n > 1 else 0]
        k = int(np.prod(size))
        if replace:
            idx = [self.ch.pick(n) if n > 1 else 0 for _ in range(k)]
        else:
            idx = self._perm(n)[:k]
        return arr[idx].reshape(size)

    def random(self, size=None, *a, **k):
        # enough values to land in every cell of a short list
        self.sampled = True
        if size is None:
            return self.ch.pick(4) / 4.0 + 0.125
        return self._g.random(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        self.sampled = True
        if size is None:
            return low + (high - low) * (self.ch.pick(4) / 4.0 + 0.125)
        return self._g.uniform(low, high, size)

    def __getattr__(self, k):
        self.sampled = True
        return getattr(self._g, k)


class EdgeRng(EnumRng):
    """real numbers are at the ends and in the middle of their range"""

    def random(self, size=None, *a, **k):
        if size is not None:
            return np.array([self.random() for _ in range(int(np.prod(size)))]).reshape(size)
        return (0.0, 0.5, 1.0 - 2.0 ** -20)[self.ch.pick(3)]

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


def enumerate_all(fn, limit=10 ** 7):
    """Runs fn(ch) for every sequence of choices. -> number of runs"""
    prefix = []
    n = 0
    while True:
        ch = Chooser(prefix)
        fn(ch)
        n += 1
        tr, wd = ch.trace, ch.width
        i = len(tr) - 1
        while i >= 0 and tr[i] + 1 >= wd[i]:
            i -= 1
        if i < 0 or n >= limit:
            return n
        prefix = tr[:i] + [tr[i] + 1]


def run_world(n, fn, *args, pick=None, expect_ok=True, max_ops=20000, mods=None):
    """Runs fn(m, rank, comm, *args) on n simulated ranks; m gives the rank's
    own module instances. An exception of a rank, a deadlock, a mismatched
    collective or an endless exchange is a Violation when expect_ok."""
    from mpi4py import MPI
    mods = mods or loader.rank_modules(n)
    w = MPI.World(n, [m.table for m in mods[:n]], pick=pick, max_ops=max_ops)

    def body(rank, comm, *a):
        return fn(mods[rank], rank, comm, *a)
    res = w.run(body, *args)
    if expect_ok and (w.abort_reason or w.errors()):
        raise_world(w)
    return (res, w)


def raise_world(w):
    import traceback
    errs = w.errors()
    for r, e in errs:
        if isinstance(e, Violation):
            raise e
    detail = None
    sig = None
    if errs:
        e = errs[0][1]
        detail = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        fr = traceback.extract_tb(e.__traceback__)
        sig = 'exception:%s:%s' % (type(e).__name__, fr[-1].name if fr else '')
    raise Violation(w.abort_reason or 'failed', sig=sig or (w.abort_reason or '').split(':')[0], detail=detail)


def expect(cond, msg, *args, sig=None):
    if not cond:
        raise Violation(msg % args if args else msg, sig=sig)


def expect_eq(got, want, what, sig=None):
    if got != want:
        raise Violation('%s: got %r, expected %r' % (what, got, want), sig=sig)
