"""How the global bounds are divided over the ranks, and which part of its area
a rank shares with which other rank."""
import itertools

from ..common import EdgeRng, enumerate_all, expect, expect_eq, run_world
from ..engine import Violation

ID = 'C08'


def dims_of(box):
    return 1 + (box[3] > 0) + (box[5] > 0)


def cells(b, nd):
    return itertools.product(*[range(b[2 * d], b[2 * d] + b[2 * d + 1]) for d in range(nd)])


def near(c, b, box, nd, buf, per):
    """whether cell c is inside or within buf of the area b"""
    for d in range(nd):
        lo, ext = b[2 * d], b[2 * d + 1]
        shifts = (0, box[2 * d + 1], -box[2 * d + 1]) if per else (0,)
        if not any(lo - buf <= c[d] + s < lo + ext + buf for s in shifts):
            return False
    return True


def contains(c, b, nd):
    return all(b[2 * d] <= c[d] < b[2 * d] + b[2 * d + 1] for d in range(nd))


def items(tier):
    deep = tier == 'thorough'
    nmax = 16 if deep else 12
    out = []
    for n in range(1, nmax + 1):
        for nd in (1, 2, 3):
            for per in (0, 1):
                out.append(('n%d-%dd-%s' % (n, nd, 'per' if per else 'sticky'), (n, nd, per, deep)))
    return out


def _topo(m, rank, comm, box, per, bufs):
    bb = m.geometry.BoundingBox(*box)
    t = m.space.CartesianTopology(comm, bb, bool(per))
    out = {'bounds': tuple(t.local_bounds), 'coords': tuple(t.coordinates), 'procs': tuple(t.procs_per_dim),
           'comm': (t.comm.Get_rank(), t.comm.Get_size())}
    sp = m.space
    b = sp.BorderType.Periodic if per else sp.BorderType.Sticky
    g = sp.SharedGrid('g', bb, b, sp.OccupancyType.Multiple, 0, comm)
    c = sp.SharedCSpace('c', bb, b, sp.OccupancyType.Multiple, 0, comm, 5)
    out['grid'] = tuple(g.get_local_bounds())
    out['cspace'] = tuple(c.get_local_bounds())
    out['random'] = []
    nc = len(list(cells(out['bounds'], dims_of(box))))
    for x in (g, c):
        pts = set()
        if nc <= 12:
            def draw(ch):
                p = x.get_random_local_pt(EdgeRng(ch))
                pts.add((p.x, p.y, p.z))
            enumerate_all(draw)
        out['random'].append(pts)
    out['buf'] = {k: [(r, tuple(rg)) for r, rg in t.compute_buffer_nghs(k)] for k in bufs}
    return out


def _procs(m, rank, comm, nd, per):
    bb = m.geometry.BoundingBox(*((0, 64) * nd + (0, 0) * (3 - nd)))
    return tuple(m.space.CartesianTopology(comm, bb, bool(per)).procs_per_dim)


def run(params, ch):
    n, nd, per, deep = params
    res, _ = run_world(n, _procs, nd, per)
    procs = res[0]
    expect(all(r == procs for r in res), 'ranks disagree on the number of ranks per dimension: %s', res)
    # extents around multiples of the number of ranks, remainders included
    box = []
    for d in range(nd):
        p = procs[d]
        exts = sorted({p, p + 1, 2 * p, 2 * p + 1, 3 * p - 1, 3 * p + 2} - {0} if deep or nd < 3 else {p, 2 * p + 1, 2 * p})
        ext = ch.choose([e for e in exts if e >= p])
        lo = ch.choose((0, -3, 5)) if nd < 3 or deep else (0, -3, 5)[d]
        box += [lo, ext]
    box = tuple(box + [0, 0] * (3 - nd))
    small = min(box[2 * d + 1] // procs[d] for d in range(nd))
    bufs = [b for b in (1, 2, 3) if b <= small]
    res, w = run_world(n, _topo, box, per, bufs)
    what = '%d ranks, %s borders, bounds %s' % (n, 'periodic' if per else 'sticky', box)
    area = {}
    pr = 1
    for p in procs:
        pr *= p
    expect_eq(pr, n, what + ': product of ranks per dimension')
    for r, o in enumerate(res):
        b = o['bounds']
        expect_eq(o['procs'], procs, what + ': ranks per dimension')
        expect(o['grid'] == b and o['cspace'] == b, '%s: rank %d: local bounds of topology %s, grid %s, space %s', what, r, b, o['grid'], o['cspace'])
        expect_eq(o['comm'], (r, n), what + ': rank and size in the topology')
        for d in range(3):
            if d >= nd:
                expect_eq(b[2 * d + 1], 0, '%s: rank %d: extent of unused dimension' % (what, r))
                continue
            q, rem = divmod(box[2 * d + 1], procs[d])
            expect(b[2 * d + 1] in ((q, q + 1) if rem else (q,)), '%s: rank %d is not given an even share: %s', what, r, b)
        if any(o['random']):
            # a random location is any in the local bounds
            want = {c + (0,) * (3 - nd) for c in cells(b, nd)}
            if o['random'][0] != want:
                raise Violation('%s: rank %d: random locations %s, expected those in %s' % (what, r, sorted(o['random'][0]), b))
            for p in o['random'][1]:
                if not all(b[2 * d] <= p[d] < b[2 * d] + b[2 * d + 1] if d < nd else p[d] == 0 for d in range(3)):
                    raise Violation('%s: rank %d: random location %s is not in %s' % (what, r, p, b))
            ends = [[int(p[d] // 1) for p in o['random'][1]] for d in range(nd)]
            if any((min(e), max(e)) != (b[2 * d], b[2 * d] + b[2 * d + 1] - 1) for d, e in enumerate(ends)):
                raise Violation('%s: rank %d: random locations %s do not cover %s' % (what, r, sorted(o['random'][1]), b))
        for c in cells(b, nd):
            if c in area:
                raise Violation('%s: cell %s belongs to ranks %d and %d' % (what, c, area[c], r))
            area[c] = r
    ncell = 1
    for d in range(nd):
        ncell *= box[2 * d + 1]
    if len(area) != ncell or not all(contains(c, box, nd) for c in area):
        raise Violation('%s: the local bounds do not cover the global ones: %s' % (what, [o['bounds'] for o in res]))
    # the coordinates tell the position of each area
    expect_eq(len({o['coords'] for o in res}), n, what + ': number of distinct coordinates %s' % [o['coords'] for o in res])
    for r, o in enumerate(res):
        expect(len(o['coords']) == nd and all(0 <= o['coords'][d] < procs[d] for d in range(nd)), '%s: rank %d has coordinates %s', what, r, o['coords'])
        for d in range(nd):
            starts = sorted({x['bounds'][2 * d] for x in res})
            expect_eq(starts[o['coords'][d]], o['bounds'][2 * d], '%s: rank %d with coordinates %s and bounds %s: start in dimension %d' % (what, r, o['coords'], o['bounds'], d))
    for buf in bufs:
        for r, o in enumerate(res):
            sent = {}
            for k, rg in o['buf'][buf]:
                if not 0 <= k < n or k == r:
                    raise Violation('%s: rank %d sends a buffer to rank %s' % (what, r, k))
                bb = []
                for d in range(nd):
                    bb += [rg[2 * d], rg[2 * d + 1] - rg[2 * d]]
                s = sent.setdefault(k, set())
                for c in cells(bb, nd):
                    s.add(c)
            for k in range(n):
                if k == r:
                    continue
                want = {c for c in cells(o['bounds'], nd) if near(c, res[k]['bounds'], box, nd, buf, per)}
                got = sent.get(k, set())
                if got != want:
                    raise Violation('%s, buffer %d: rank %d (%s) shares with rank %d (%s): missing %s, wrong %s' % (
                        what, buf, r, o['bounds'], k, res[k]['bounds'], sorted(want - got)[:6], sorted(got - want)[:6]))
            ch.step()
    ch.state((n, box, per))


ASSUMPTIONS = ('up to 12 (thorough: 16) ranks; the buffer is at most as large as the smallest local extent',)
