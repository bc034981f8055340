"""Border semantics: where a coordinate beyond the bounds ends."""
import itertools
import math
from fractions import Fraction

from ..common import expect, run_world
from ..engine import Violation
from ..spaces import pt_tuple

ID = 'C11'
INT_BOXES = [(0, 5, 0, 0, 0, 0), (-3, 4, 0, 0, 0, 0), (0, 1, 0, 0, 0, 0), (7, 2, 0, 0, 0, 0), (100000, 20, 0, 0, 0, 0),
             (0, 4, 0, 3, 0, 0), (-2, 3, 5, 4, 0, 0), (3, 1, -6, 5, 0, 0),
             (0, 3, 0, 2, 0, 2), (-1, 2, 2, 3, -4, 2), (1, 1, 1, 2, -7, 3)]
BIG = [(0, 2 ** 28, 0, 0, 0, 0), (-2 ** 40, 2 ** 41, 0, 0, 0, 0)]


def ints(lo, ext, wide):
    hi = lo + ext
    if wide:
        vs = set(range(lo - 3 * ext - 1, hi + 3 * ext + 2)) if ext < 50 else {lo, hi - 1}
        vs |= {lo - 10 ** 6, hi + 10 ** 6, lo - 1000 * ext, hi + 1000 * ext, hi + 1000 * ext - 1, 0, -1, 1, lo - 1, hi, hi + 1}
    else:
        vs = {lo - ext - 1, lo - ext, lo - 1, lo, lo + ext // 2, hi - 1, hi, hi + 1, hi + ext, hi + 2 * ext}
    return sorted(vs)


def floats(lo, ext, wide):
    hi = lo + ext
    vs = set()
    base = [lo, hi, lo - ext, hi + ext, lo + ext / 2.0, lo + ext / 3.0]
    if wide:
        base += [lo - 3 * ext, hi + 7 * ext, lo - 0.1, hi + 0.1, 0.0, lo - 2.0 / 3, lo - 1000.7 * ext, hi + 1000.3 * ext]
    for b in base:
        b = float(b)
        up = down = b
        vs.add(b)
        for _ in range(3 if wide else 1):
            up, down = math.nextafter(up, math.inf), math.nextafter(down, -math.inf)
            vs |= {up, down}
    if wide:
        tiny = [5e-324, 1e-300, 1e-17, 1e-12, 1e-9, 2e-8, 1e-6]
        for t in tiny:
            vs |= {float(lo) - t, float(hi) - t, float(hi) + t, t, -t}
    return sorted(vs)


def items(tier):
    out = []
    for kind in ('borders', 'grid', 'sgrid', 'cspace', 'scspace'):
        cont = kind in ('cspace', 'scspace')
        for box in INT_BOXES + BIG:
            if tier == 'quick' and kind in ('sgrid', 'scspace') and box[3] and box[0] < 0:
                continue
            for per in (0, 1):
                out.append(('%s-%s-%s' % (kind, 'per' if per else 'sticky', '.'.join(map(str, box))), (kind, box, per, cont, tier == 'thorough')))
    return out


def expect_dim(raw, got, lo, ext, per, cont):
    """None, or what is wrong with one coordinate"""
    if ext == 0:
        return None if got == lo else 'an unused dimension got coordinate %r' % got
    hi = lo + ext
    if not lo <= got < hi:
        return 'coordinate %r ended at %r, outside [%s, %s)' % (raw, got, lo, hi)
    if not cont:
        want = lo + (raw - lo) % ext if per else max(lo, min(hi - 1, raw))
        return None if got == want else 'coordinate %r ended at %r instead of %r' % (raw, got, want)
    if per:
        if lo <= raw < hi and abs(raw - got) > 1e-9 * max(1.0, abs(raw)):
            return 'coordinate %r inside the bounds ended at %r' % (raw, got)
        d = (Fraction(raw) - Fraction(got)) / ext
        err = abs(d - round(d)) * ext
        tol = Fraction(1e-12) * max(1, abs(Fraction(raw)), abs(lo), ext)
        return None if err <= tol else 'coordinate %r ended at %r, which is not congruent (period %s)' % (raw, got, ext)
    want = max(float(lo), min(float(hi), raw))
    tol = 1e-7 * max(1.0, abs(hi) * 1e-8)
    if lo <= raw < hi and hi - raw > tol:
        tol = 0.0
    elif raw < lo:
        tol = 0.0
    return None if abs(got - want) <= tol else 'coordinate %r ended at %r instead of %r' % (raw, got, want)


def _prog(m, rank, comm, params, ch):
    kind, box, per, cont, deep = params
    sp = m.space
    bb = m.geometry.BoundingBox(*box)
    dims = 1 + (box[3] > 0) + (box[5] > 0)
    mk = sp.ContinuousPoint if cont else sp.DiscretePoint
    if kind == 'borders':
        b = sp.GridPeriodicBorders(bb) if per else sp.GridStickyBorders(bb)
        out = mk(0, 0, 0)

        def where(raw):
            b._transform(mk(*raw), out)
            return pt_tuple(out)
    else:
        bt = sp.BorderType.Periodic if per else sp.BorderType.Sticky
        oc = sp.OccupancyType.Multiple
        if kind == 'grid':
            s = sp.Grid('s', bb, bt, oc)
        elif kind == 'cspace':
            s = sp.ContinuousSpace('s', bb, bt, oc, 3)
        elif kind == 'sgrid':
            s = sp.SharedGrid('s', bb, bt, oc, 0, comm)
        else:
            s = sp.SharedCSpace('s', bb, bt, oc, 0, comm, 3)
        a = m.core.Agent(1, 0, 0)
        s.add(a)

        def where(raw):
            p = s.move(a, mk(*raw))
            t = pt_tuple(p)
            l = pt_tuple(s.get_location(a))
            if l != t:
                raise Violation('move returned %s but the agent is at %s' % (t, l))
            return t
    gen = floats if cont else ints
    vals = [gen(box[2 * d], box[2 * d + 1], dims == 1 or deep and dims == 2) for d in range(dims)]
    first = ch.choose(vals[0]) if dims > 1 else None
    for rest in itertools.product(*vals[1:]) if dims > 1 else ((v,) for v in vals[0]):
        raw = ((first,) if dims > 1 else ()) + tuple(rest) + (0,) * (3 - dims)
        got = where(raw)
        ch.step()
        for d in range(3):
            bad = expect_dim(raw[d], got[d], box[2 * d], box[2 * d + 1], per, cont)
            if bad:
                raise Violation('%s %s borders of %s: point %s: %s' % (kind, 'periodic' if per else 'sticky', box, raw, bad))
        if where(got) != got:
            raise Violation('%s borders of %s: point %s -> %s -> %s is not stable' % (kind, box, raw, got, where(got)))
        ch.state((params[:3], got))


def run(params, ch):
    run_world(1, _prog, params, ch)


ASSUMPTIONS = ('coordinates: all integers within three extents of the bounds and some far ones; for continuous spaces the doubles at '
               'and next to every border and multiple of the extent; a coordinate within 1e-7 of an upper sticky border may move by 1e-7',)
