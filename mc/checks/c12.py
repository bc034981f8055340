"""Neighbourhoods: the points at most one step away, with sticky or periodic
borders, in either order of coordinates."""
import itertools

import numpy as np

from .. import loader
from ..common import expect, expect_eq
from ..engine import Violation

ID = 'C12'


def _geo():
    return loader.rank_modules(1)[0].geometry


def prepare(tier):
    g = _geo()
    # compile before the worker processes are forked
    for d in (1, 2, 3):
        for f in (getattr(g, 'find_%dd_nghs_sticky' % d), getattr(g, 'find_%dd_nghs_periodic' % d)):
            for pt in (np.array([1, 1, 1], dtype=np.int64),):
                mm = np.array([0, 2] * d)
                f(pt, mm)
                if d > 1:
                    f(pt, mm, True)
                    f(pt, mm, pytorch_order=True)
                    f(pt, mm, pytorch_order=False)


def items(tier):
    deep = tier == 'thorough'
    out = []
    for d in (1, 2, 3):
        exts = {1: range(1, 8), 2: range(1, 6 if deep else 5), 3: range(1, 5 if deep else 4)}[d]
        for e in itertools.product(exts, repeat=d):
            out.append(('%dd-%s' % (d, 'x'.join(map(str, e))), (d, e)))
    out.append(('dims', ('dims',)))
    return out


def want_nghs(pt, lo, ext, per):
    opts = []
    for d in range(len(ext)):
        vs = [pt[d] - 1, pt[d], pt[d] + 1]
        if per:
            opts.append([lo[d] + (v - lo[d]) % ext[d] for v in vs])
        else:
            opts.append([v for v in vs if lo[d] <= v < lo[d] + ext[d]])
    return set(itertools.product(*opts))


def run(params, ch):
    g = _geo()
    if params[0] == 'dims':
        for x, y, z in itertools.product((1, 2, 9), (0, 1, 5), (0, 1, 4)):
            if y == 0 and z:
                continue
            for lo in (0, -2, 7):
                expect_eq(g.get_num_dims(g.BoundingBox(lo, x, lo, y, lo, z)), 1 + (y > 0) + (z > 0), 'get_num_dims of extents (%d, %d, %d)' % (x, y, z))
        expect_eq(g.get_num_dims(g.BoundingBox(0, 3, 0, 4)), 2, 'get_num_dims without z')
        ch.state('dims')
        return
    d, ext = params
    per = ch.pick(2)
    los = [(0, 0, 0), (-3, 5, -1), (4, -7, 2)][ch.pick(3)]
    lo = los[:d]
    mm = np.array([v for k in range(d) for v in (lo[k], lo[k] + ext[k] - 1)])
    f = getattr(g, 'find_%dd_nghs_%s' % (d, 'periodic' if per else 'sticky'))
    for pt in itertools.product(*[range(lo[k], lo[k] + ext[k]) for k in range(d)]):
        arr = np.array(pt + los[d:], dtype=np.int64)
        want = want_nghs(pt, lo, ext, per)
        what = '%dD %s neighbours of %s within %s' % (d, 'periodic' if per else 'sticky', pt, mm)
        outs = [f(arr, mm)] if d == 1 else [f(arr, mm), f(arr, mm, pytorch_order=False), f(arr, mm, pytorch_order=True), f(arr, mm, True)]
        expect_eq(tuple(arr), pt + los[d:], what + ': the point passed is now')
        for k, r in enumerate(outs):
            r = np.asarray(r)
            rows = [r] if d == 1 else list(r)
            expect(len(rows) == d and r.ndim == (1 if d == 1 else 2), '%s: result of shape %s', what, r.shape)
            if k >= 2:
                rows = rows[::-1]
            pts = list(zip(*[[int(v) for v in row] for row in rows]))
            if set(pts) != want:
                raise Violation('%s%s: missing %s, wrong %s' % (what, ' in pytorch order' if k >= 2 else '', sorted(want - set(pts)), sorted(set(pts) - want)))
            if min(ext) >= 3 or not per:
                expect(len(pts) == len(set(pts)), '%s: repeated points %s', what, pts)
        ch.step(len(outs))
    ch.state((d, ext, per, lo))


ASSUMPTIONS = ('points within the bounds; extents 1-7 in 1D, 1-4 (thorough: 5) in 2D, 1-3 (4) in 3D, three origins',)
