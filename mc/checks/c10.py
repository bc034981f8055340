"""A bounding box query of a continuous space returns exactly the agents whose
location is in the box, whatever moves and removals came before."""
import itertools

from ..common import expect_eq, run_world
from ..engine import Violation
from ..spaces import SpaceModel, check_space, pt_tuple
from .c09 import make
from ..spaces import BOX

ID = 'C10'
NA = 4
# in each dimension: low border, on a split plane, between planes, just beyond
PTS = {
    1: [(-2, 0, 0), (0, 0, 0), (1.5, 0, 0), (1.75, 0, 0), (-0.5, 0, 0), (2.5, 0, 0)],
    2: [(-2, 1, 0), (0, 2.5, 0), (1.5, 3.5, 0), (1.75, 3.25, 0), (-0.5, 2.5, 0), (3, 5, 0)],
    3: [(-2, 1, 5), (0, 2.5, 6), (1.5, 3.5, 6.5), (1.75, 3.25, 6.5), (-0.5, 2.5, 6), (3, 5, 9)],
}


def boxes(dims):
    rng = {'x': [(-3, 6), (-2, 2), (-2, 4), (0, 1), (0, 2), (1, 1), (1, 3)], 'y': [(1, 3), (0, 2), (2, 1), (3, 2)], 'z': [(5, 2), (5, 1), (6, 1)]}
    out = []
    for x in rng['x']:
        for y in rng['y'] if dims > 1 else [(0, 0)]:
            for z in rng['z'] if dims > 2 else [(0, 0)]:
                out.append(x + y + z)
    return out


def items(tier):
    out = []
    deep = tier == 'thorough'
    for kind in ('cspace', 'scspace'):
        for dims in (2, 1, 3):
            for occ in (0, 1):
                for per in (0, 1):
                    for thr in (1, 2) if dims == 2 or deep else (1,):
                        if not deep and kind == 'scspace' and (dims != 2 or thr != 1):
                            continue
                        d = (3 if per and dims == 3 else 4) if not deep else 5 if dims == 2 else 4
                        if not deep and (per or kind == 'scspace' or dims != 2 or thr != 1):
                            d = 3
                        out.append(('%s%d-%s-%s-t%d' % (kind, dims, 'single' if occ else 'multi', 'per' if per else 'sticky', thr),
                                    (kind, dims, per, occ, thr, d)))
    for kind in ('cspace', 'scspace'):
        for dims in (1, 2, 3):
            for per in (0, 1):
                for n, thr in ((60, 3), (400, 100)):
                    out.append(('wide-%s%d-%s-%d' % (kind, dims, 'per' if per else 'sticky', n), ('wide', kind, dims, per, n, thr)))
    return out


def inside(t, b, dims):
    return all(b[2 * d] <= t[d] < b[2 * d] + b[2 * d + 1] for d in range(dims))


def _prog(m, rank, comm, params, ch):
    kind, dims, per, occ, thr, depth = params
    space = make(m, comm, kind, dims, per, occ, threshold=thr)
    mk = m.space.ContinuousPoint
    agents = [m.core.Agent(i, i % 2, 0) for i in range(NA)]
    model = SpaceModel(BOX[dims], per, occ, False)
    raws = PTS[dims]
    qs = [(b, m.geometry.BoundingBox(*b)) for b in boxes(dims)]
    idx = {id(a): i for i, a in enumerate(agents)}
    log = []
    # two agents start out located, at the same place if that is allowed
    for i in range(NA):
        space.add(agents[i])
        model.members.append(i)
    for i, r in ((0, raws[2]), (1, raws[3 if occ else 2])):
        model.place(i, model.target(r, pt_tuple(space.move(agents[i], mk(*r)))))
    used = 1
    for _ in range(depth):
        ops = []
        for i in range(min(NA, used + 2)):
            if i in model.members:
                ops.append((i, 'remove'))
            ops += [(i, r) for r in raws]
        i, op = ch.choose(ops)
        used = max(used, i)
        log.append((i, op))
        a = agents[i]
        if op == 'remove':
            space.remove(a)
            model.members.remove(i)
            model.unplace(i)
        else:
            if i not in model.members:
                space.add(a)
                model.members.append(i)
            p = space.move(a, mk(*op))
            t = model.target(op, pt_tuple(p) if p is not None else None)
            if model.place(i, t if None not in t else None) != (p is not None):
                raise Violation('%s after %s: move returned %s' % (params, log, p))
        ch.step()
        if ch.fresh():
            for b, bb in qs:
                got = sorted(idx.get(id(x), -1) for x in space.get_agents_within(bb))
                want = sorted(i for i, t in model.loc.items() if inside(t, b, dims))
                if got != want:
                    raise Violation('%s after %s: agents within %s: got %s, expected %s; locations %s' % (params[:5], log, b, got, want, model.loc))
        ch.state((params[:5], sorted(model.loc.items())))


def _wide(m, rank, comm, params, ch):
    """many agents, scattered or at few places, so that the index of the space splits"""
    _, kind, dims, per, n, thr = params
    p, q = 1 + ch.pick(6), ch.pick(4)
    space = make(m, comm, kind, dims, per, 0, threshold=thr)
    mk = m.space.ContinuousPoint
    agents = [m.core.Agent(i, i % 3, 0) for i in range(n)]
    model = SpaceModel(BOX[dims], per, 0, False)
    idx = {id(a): i for i, a in enumerate(agents)}
    box = BOX[dims]
    for rnd in range(4):
        # scattered; at multiples of 1/4; at two places
        div = (1024, 16, 2, 64)[(rnd + q) % 4]
        for i, a in enumerate(agents):
            if i not in model.loc and i not in model.members and (i + rnd) % 3 or rnd == 0:
                space.add(a)
                model.members.append(i)
            if i in model.members and (i * p + rnd) % 4 != 3:
                raw = tuple(box[2 * d] - (per and 1) + box[2 * d + 1] * ((i * (p + 2 * d) + d) % div) / div if d < dims else 0.0 for d in range(3))
                pt = space.move(a, mk(*raw))
                t = model.target(raw, pt_tuple(pt))
                model.place(i, t)
                if pt_tuple(pt) != t:
                    raise Violation('%s: agent %d moved to %s instead of %s' % (params, i, pt_tuple(pt), t))
        for when in range(2):
            for b in boxes(dims):
                got = [idx.get(id(x), -1) for x in space.get_agents_within(m.geometry.BoundingBox(*b))]
                want = sorted(i for i, t in model.loc.items() if inside(t, b, dims))
                if sorted(got) != want:
                    raise Violation('%s %d %d round %d: agents within %s: got %s, expected %s' % (params, p, q, rnd, b, sorted(got), want))
            ch.step()
            ch.state((params, rnd, when, sorted(model.loc.items())))
            if when == 0:
                for i in list(model.members):
                    if (i * 5 + q) % 3 == rnd % 3:
                        space.remove(agents[i])
                        model.members.remove(i)
                        model.unplace(i)


def run(params, ch):
    if params[0] == 'wide':
        run_world(1, _wide, params, ch)
        return
    run_world(1, _prog, params, ch)


ASSUMPTIONS = ('boxes with integer corners, at least one unit wide in every dimension of the space; four agents and six target points, or up to 400 agents placed by formulas',)
