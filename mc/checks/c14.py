"""Shared value layers: after a synchronization every rank sees its
neighbours' current values in its buffer; a read/write layer shows writes only
after a swap."""
import itertools

import torch

from ..common import expect_eq, run_world
from ..engine import Violation
from .c12 import want_nghs

ID = 'C14'


def prepare(tier):
    from . import c12
    c12.prepare(tier)


def items(tier):
    deep = tier == 'thorough'
    out = []
    for n in list(range(1, 7)) + [8, 9] + ([10, 12, 16] if deep else []):
        for nd in (1, 2):
            for per in (0, 1):
                for k, lo in enumerate([(0, 0), (-3, 5)]):
                    out.append(('n%d-%dd-%s-%s' % (n, nd, 'per' if per else 'sticky', lo), (n, nd, per, lo, deep)))
    return out


def _procs(m, rank, comm, nd, per):
    bb = m.geometry.BoundingBox(*((0, 64) * nd + (0, 0) * (3 - nd)))
    return tuple(m.space.CartesianTopology(comm, bb, bool(per)).procs_per_dim)


def value(cell, gen):
    return (cell[0] + 40) * 1000 + (cell[1] + 40) * 10 + gen


def wrap(c, box, nd):
    return tuple(box[2 * d] + (c[d] - box[2 * d]) % box[2 * d + 1] if d < nd else c[d] for d in range(2))


def _prog(m, rank, comm, box, nd, per, buf, rw, dt, hist, shared):
    sp = m.space
    bb = m.geometry.BoundingBox(*box)
    bt = sp.BorderType.Periodic if per else sp.BorderType.Sticky
    DP = sp.DiscretePoint
    cls = m.value_layer.ReadWriteValueLayer if rw else m.value_layer.SharedValueLayer
    init = 'random' if hist[0] == 'random' else 9
    layer = cls(comm, bb, bt, buf, init, torch.float64 if init != 9 else dt)
    ctx = m.context.SharedContext(comm)
    ctx.add_value_layer(layer)
    lb = tuple((layer.read_layer if rw else layer).local_bounds)
    local = list(itertools.product(*[range(lb[2 * d], lb[2 * d] + lb[2 * d + 1]) if d < nd else [lb[2 * d]] for d in range(2)]))
    shared[rank] = lb
    what = 'rank %d with local bounds %s' % (rank, lb)

    def check(lay, vals, what, buffers=True):
        """every cell of the local bounds and the buffer has the value vals gives"""
        rngs = []
        b = buf if buffers else 0
        for d in range(2):
            lo, ext = lb[2 * d], lb[2 * d + 1]
            if d >= nd:
                rngs.append([lo])
            elif per and comm.size > 1:
                rngs.append(range(lo - b, lo + ext + b))
            else:
                glo, gext = box[2 * d], box[2 * d + 1]
                rngs.append(range(max(glo, lo - b), min(glo + gext, lo + ext + b)))
        for c in itertools.product(*rngs):
            got = lay.get(DP(c[0], c[1], 0)).item()
            want = vals(wrap(c, box, nd))
            if got != want:
                raise Violation('%s: value at %s: %s, expected %s' % (what, c, got, want))
        # the same values in the tensor, which covers the bounds of the layer
        bo = lay.bounds
        grid = lay.grid if hasattr(lay, 'grid') else lay.read_grid
        if tuple(grid.shape) != ((bo.xextent,) if nd == 1 else (bo.yextent, bo.xextent)):
            raise Violation('%s: the bounds are %s, the shape of the tensor %s' % (what, bo, grid.shape))
        for c in itertools.product(*rngs):
            got = (grid[c[0] - bo.xmin] if nd == 1 else grid[c[1] - bo.ymin, c[0] - bo.xmin]).item()
            want = vals(wrap(c, box, nd))
            if got != want:
                raise Violation('%s: value at %s in the tensor: %s, expected %s' % (what, c, got, want))
        if (b == 0 and comm.size > 1) or not buffers:
            return
        # neighbours of the local cells
        for c in local:
            if per:
                want = {wrap(x + (0, 0)[len(x):], box, nd)[:nd] for x in itertools.product(*[(c[d] - 1, c[d], c[d] + 1) for d in range(nd)])}
            else:
                want = want_nghs(c[:nd], box[0:4:2][:nd], box[1:4:2][:nd], False)
            vs, locs = lay.get_nghs(DP(c[0], c[1], 0))
            rows = [locs] if nd == 1 else list(locs)
            ls = [wrap(x + (lb[2],) * (2 - nd), box, nd) for x in zip(*[[int(v) for v in r] for r in rows])]
            if {x[:nd] for x in ls} != want:
                raise Violation('%s: neighbours of %s: %s, expected %s' % (what, c, sorted(ls), sorted(want)))
            for v, l in zip(vs, ls):
                if v.item() != vals(l):
                    raise Violation('%s: value of neighbour %s of %s: %s, expected %s' % (what, l, c, v.item(), vals(l)))

    def const(c):
        return 9
    if init == 'random':
        own = {c: layer.get(DP(c[0], c[1], 0)).item() for c in local}
        every = {}
        for x in comm.allgather(own):
            every.update(x)
        check(layer, lambda c: every[c], what + ', initially random')
        return
    check(layer, const, what + ', initially')
    read, write = const, const      # values of the two layers (one for a plain one)
    rfresh, wfresh = True, True     # whether the buffers are known to hold them
    for gen, op in enumerate(hist):
        if op == 'set':
            if rw:
                wfresh = False
                write = lambda c, g=gen: value(c, g)    # noqa: E731
            else:
                read = lambda c, g=gen: value(c, g)     # noqa: E731
            for c in local:
                layer.set(DP(c[0], c[1], 0), value(c, gen))
            check(layer, read, what + ', after set', buffers=rw and rfresh)
        elif op == 'sync':
            ctx.synchronize(None)
            rfresh = wfresh = True
            check(layer, read, what + ', after synchronize (history %s)' % (hist[:gen + 1],))
            if rw:
                if layer.write_grid is not layer.write_layer.grid:
                    raise Violation(what + ': write_grid is not the tensor of the write layer')
                check(layer.write_layer, write, what + ', write layer after synchronize (history %s)' % (hist[:gen + 1],))
        elif op == 'swap':
            layer.swap_layers()
            read, write, rfresh, wfresh = write, read, wfresh, rfresh
            check(layer, read, what + ', after swap', buffers=rfresh)
        elif op == 'foreign':
            # writes to the own copy of the neighbours' cells last until the next synchronization
            for c in itertools.product(*[range(lb[2 * d] - buf, lb[2 * d] + lb[2 * d + 1] + buf) if d < nd else [lb[2 * d]] for d in range(2)]):
                if c not in local and (per or all(box[2 * d] <= c[d] < box[2 * d] + box[2 * d + 1] for d in range(nd))):
                    layer.set(DP(c[0], c[1], 0), 5)
    return True


def run(params, ch):
    n, nd, per, lo, deep = params
    res, _ = run_world(n, _procs, nd, per)
    procs = res[0]
    box = []
    exts = []
    for d in range(nd):
        p = procs[d]
        es = sorted({max(2 * p, 3), 3 * p + 1, 2 * p + 1 if p > 1 else 4} | ({p} if deep else set()))
        e = ch.choose(es)
        exts.append(e)
        box += [lo[d], e]
    box = tuple(box + [0, 0] * (3 - nd))
    small = min(e // p for e, p in zip(exts, procs))
    buf = ch.choose([b for b in (1, 2, 3, 0) if b <= small])
    rw = ch.pick(2)
    dt = torch.float64 if (n + buf + rw) % 2 else torch.int32
    hists = [('set', 'sync', 'swap', 'sync', 'set', 'sync', 'swap', 'swap'), ('set', 'swap', 'sync'), ('set', 'swap', 'set', 'sync', 'set', 'swap', 'sync', 'sync', 'swap')] if rw else \
        [('set', 'sync', 'set', 'sync'), ('sync', 'set', 'set', 'sync', 'sync'), ('foreign', 'sync', 'set', 'foreign', 'sync')]
    hist = ch.choose(hists + [('random',)])
    if hist[0] == 'foreign' and n == 1:
        hist = hists[0]
    shared = {}
    try:
        run_world(n, _prog, box, nd, per, buf, rw, dt, hist, shared)
    except Violation as v:
        v.msg = '%d ranks, %s borders, bounds %s, buffer %d, %s: %s' % (n, 'periodic' if per else 'sticky', box, buf, 'read/write' if rw else 'shared', v.msg)
        raise
    ch.step(len(hist))
    ch.state((n, box, per, buf, rw, hist))


ASSUMPTIONS = ('1D and 2D (3D shared layers are not supported); the buffer is at most as large as the smallest local extent; '
               'locations in a buffer across a periodic border are taken modulo the bounds')
