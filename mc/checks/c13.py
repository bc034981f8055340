"""A value layer is a total function from its cells to values: set changes one
cell, get and get_nghs tell the values of the cells they should."""
import itertools

import torch

from ..common import expect, expect_eq, run_world
from ..engine import Violation
from .c12 import want_nghs

ID = 'C13'
BOXES = [(0, 5, 0, 0, 0, 0), (-3, 2, 0, 0, 0, 0), (4, 1, 0, 0, 0, 0),
         (0, 4, 0, 3, 0, 0), (-2, 3, 5, 4, 0, 0), (3, 1, -6, 2, 0, 0),
         (0, 3, 0, 4, 0, 2), (-1, 2, 2, 3, -4, 4), (5, 3, -2, 1, 3, 3)]


def prepare(tier):
    from . import c12
    c12.prepare(tier)
    from .. import loader
    m = loader.rank_modules(1)[0]
    for b in (BOXES[0], BOXES[3], BOXES[6]):
        for per in (0, 1):
            l = make(m, b, per, 0.0, torch.float64)
            l.get_nghs(m.space.DiscretePoint(b[0], b[2], b[4]))


def items(tier):
    deep = tier == 'thorough'
    return [('%s-%s-%s' % (b, 'per' if per else 'sticky', str(dt)[6:]), (b, per, dt, deep)) for b in BOXES for per in (0, 1)
            for dt in (torch.float64, torch.int32)]


def make(m, b, per, init, dt):
    sp = m.space
    return m.value_layer.ValueLayer(m.geometry.BoundingBox(*b), sp.BorderType.Periodic if per else sp.BorderType.Sticky, init, dt)


def cells_of(b):
    return list(itertools.product(*[range(b[2 * d], b[2 * d] + max(1, b[2 * d + 1])) for d in range(3)]))


def into(raw, b, per):
    out = []
    for d in range(3):
        lo, ext = b[2 * d], b[2 * d + 1]
        out.append(lo if ext == 0 else lo + (raw[d] - lo) % ext if per else max(lo, min(lo + ext - 1, raw[d])))
    return tuple(out)


def _prog(m, rank, comm, params, ch):
    b, per, dt, deep = params
    DP = m.space.DiscretePoint
    what = 'bounds %s, %s' % (b, 'periodic' if per else 'sticky')
    nd = 1 + (b[3] > 0) + (b[5] > 0)
    init = ch.choose((3, 'random') if dt == torch.float64 else (3,))
    layer = make(m, b, per, init, dt)
    expect_eq(tuple(layer.bounds), b, what + ': bounds')
    cells = cells_of(b)
    vals = {}
    for c in cells:
        v = layer.get(DP(*c)).item()
        expect(v == 3 if init == 3 else 0 <= v < 1, '%s: initial value of %s is %s', what, c, v)
        vals[c] = v
    # distinct values everywhere, set from the last cell to the first
    for k, c in enumerate(reversed(cells)):
        layer.set(DP(*c), 100 + k)
        vals[c] = 100 + k
    raws = []
    for d in range(nd):
        lo, ext = b[2 * d], b[2 * d + 1]
        raws.append([lo - 1, lo, lo + ext - 1, lo + ext, lo - 2 * ext - 1] + ([lo + ext // 2, lo + 3 * ext + 1] if deep or nd < 3 else []))
    pts = [tuple(p) + (0, 0, 0)[nd:] for p in itertools.product(*raws)]
    for step in range(2 if nd < 2 or deep and nd < 3 else 1):
        p = ch.choose(pts)
        expect_eq(layer.get(DP(*p)).item(), vals[into(p, b, per)], '%s: get%s' % (what, p))
        v = 7 + step
        pt = DP(*p)
        layer.set(pt, v)
        expect_eq((pt.x, pt.y, pt.z), p, what + ': the point passed to set is now')
        vals[into(p, b, per)] = v
        ch.step()
    got = {c: layer.get(DP(*c)).item() for c in cells}
    if got != vals:
        raise Violation('%s: after setting %s the values differ from the expected ones at %s' % (
            what, p, sorted(c for c in cells if got[c] != vals[c])[:5]))
    # the tensor, in z, y, x order
    g = layer.grid
    expect_eq(tuple(g.shape), tuple(b[2 * d + 1] for d in reversed(range(nd))), what + ': shape of the tensor')
    for c in cells:
        idx = tuple(c[d] - b[2 * d] for d in reversed(range(nd)))
        expect_eq(g[idx].item(), vals[c], '%s: tensor at cell %s' % (what, c))
    for c in cells:
        vs, locs = layer.get_nghs(DP(*c))
        rows = [locs] if nd == 1 else list(locs)
        expect_eq(len(rows), nd, what + ': rows of neighbour locations')
        ls = list(zip(*[[int(v) for v in r] for r in rows]))
        want = want_nghs(c[:nd], b[0:6:2][:nd], b[1:6:2][:nd], per)
        if set(ls) != want:
            raise Violation('%s: neighbours of %s: missing %s, wrong %s' % (what, c, sorted(want - set(ls)), sorted(set(ls) - want)))
        expect_eq([v.item() for v in vs], [vals[l + (0, 0, 0)[nd:] if nd == 3 else l + tuple(b[2 * d] for d in range(nd, 3))] for l in ls],
                  '%s: values of the neighbours %s of %s' % (what, ls, c))
        ch.step()
    ch.state((b, per, tuple(sorted(vals.items()))))


def run(params, ch):
    run_world(1, _prog, params, ch)


ASSUMPTIONS = ('neighbours are asked for points within the bounds',)
