"""Every sequence of add, remove and move on a grid / continuous space leaves
the space telling exactly what the sequence implies."""
from .. import loader
from ..common import expect, expect_eq, run_world
from ..engine import Violation
from ..spaces import BOX, SpaceModel, check_space, pt_tuple

ID = 'C09'
NA = 3


def points(dims, grid):
    """raw points moved to: two inside, one wrapping, one beyond the low end"""
    f = (lambda v: v) if grid else (lambda v: v + 0.5)
    xs = [f(-2), f(1), f(2), f(-4)]
    ys = {1: [0, 0, 3, 0]}.get(dims) or [f(1), f(3), f(3), f(0)]
    zs = {3: [f(5), f(6), f(7), f(6)]}.get(dims) or [0] * 4
    return list(zip(xs, ys, zs))


def items(tier):
    out = []
    for kind in ('grid', 'cspace', 'sgrid', 'scspace'):
        for dims in (1, 2, 3):
            for per in (0, 1):
                for occ in (0, 1):
                    if kind == 'sgrid' and occ == 1 and dims == 1:
                        continue
                    d = (4 if dims == 2 else 3) if tier == 'quick' else 5 if dims == 2 else 4
                    out.append(('%s%dd-%s-%s' % (kind, dims, 'per' if per else 'sticky', 'single' if occ else 'multi'),
                                (kind, dims, per, occ, d)))
        for dims in (1, 2, 3):
            for per in (0, 1):
                out.append(('wide-%s%dd-%s' % (kind, dims, 'per' if per else 'sticky'), ('wide', kind, dims, per, dims % 2)))
    return out


def make(m, comm, kind, dims, per, occ, threshold=2, buffer=0):
    sp = m.space
    box = m.geometry.BoundingBox(*BOX[dims])
    b = sp.BorderType.Periodic if per else sp.BorderType.Sticky
    o = sp.OccupancyType.Single if occ else sp.OccupancyType.Multiple
    if kind == 'grid':
        return sp.Grid('s', box, b, o)
    if kind == 'cspace':
        return sp.ContinuousSpace('s', box, b, o, threshold)
    if kind == 'sgrid':
        return sp.SharedGrid('s', bounds=box, borders=b, occupancy=o, buffer_size=buffer, comm=comm)
    return sp.SharedCSpace('s', bounds=box, borders=b, occupancy=o, buffer_size=buffer, comm=comm, tree_threshold=threshold)


def _prog(m, rank, comm, params, ch):
    kind, dims, per, occ, depth = params
    grid = kind in ('grid', 'sgrid')
    space = make(m, comm, kind, dims, per, occ)
    # the same id: told apart by type and rank
    agents = [m.core.Agent(0, *x) for x in ((0, 0), (1, 0), (0, 1))]
    mk = m.space.DiscretePoint if grid else m.space.ContinuousPoint
    model = SpaceModel(BOX[dims], per, occ, grid)
    raws = points(dims, grid)
    log = []
    far = mk(BOX[dims][0], 77, 78)
    for i in range(NA - 1):
        space.add(agents[i])
        model.members.append(i)
    used = 0
    for _ in range(depth):
        ops = []
        for i in range(NA):
            # agents 0..NA-2 start alike: the first use of one is of the lowest
            if i > used and i < NA - 1:
                continue
            ops += [(i, 'add'), (i, 'remove')] + [(i, r) for r in raws]
        i, op = ch.choose(ops)
        used = max(used, i + 1) if i < NA - 1 else used
        a = agents[i]
        log.append((i, op))
        try:
            if op == 'add':
                space.add(a)
                if i not in model.members:
                    model.members.append(i)
            elif op == 'remove':
                space.remove(a)
                if i in model.members:
                    model.members.remove(i)
                    model.unplace(i)
            else:
                raw = mk(*op)
                try:
                    ret = space.move(a, raw)
                except (RuntimeError, ValueError, KeyError):
                    if i in model.members:
                        raise
                    ret = 'refused'
                expect_eq(pt_tuple(raw), op, 'the point passed to move is now')
                if i not in model.members:
                    expect_eq(ret, 'refused', 'moving an agent that is not in the space')
                else:
                    got = pt_tuple(ret) if ret is not None else None
                    t = model.target(op, got)
                    if None in t:
                        # refused move to a clipped point never reached before
                        t = None
                    ok = model.place(i, t) if t is not None else None
                    if ok is False:
                        expect(ret is None, 'a move to an occupied location returned %s', ret)
                    elif ok is None:
                        raise Violation('move returned None for a free location')
                    else:
                        expect_eq(got, t, 'move%s returned' % (op,))
            ch.step()
            if ch.fresh():
                cells = {t for t in model.canon.values()} | set(model.at)
                check_space(space, model, agents, cells, mk, num=kind in ('sgrid', 'scspace'))
            expect(space.get_agent(far) is None, 'an agent at %s, beyond the borders', far)
        except Violation as v:
            v.msg = '%s after %s: %s' % (params[:4], log, v.msg)
            raise
        ch.state((params[:4], sorted(model.members), sorted(model.loc.items()), sorted((k, tuple(v)) for k, v in model.at.items() if v)))


def _wide(m, rank, comm, params, ch):
    """many agents, up to all locations occupied or many agents at one"""
    _, kind, dims, per, rev = params
    occ, p, q = ch.pick(2), 1 + ch.pick(6), ch.pick(4)
    grid = kind in ('grid', 'sgrid')
    space = make(m, comm, kind, dims, per, occ)
    mk = m.space.DiscretePoint if grid else m.space.ContinuousPoint
    model = SpaceModel(BOX[dims], per, occ, grid)
    b = BOX[dims]
    f = 0 if grid else 0.25
    cells = [(x + f, y + (f if dims > 1 else 0), z + (f if dims > 2 else 0)) for x in range(b[0], b[0] + b[1])
             for y in range(b[2], b[2] + max(1, b[3])) for z in range(b[4], b[4] + max(1, b[5]))]
    # (as many agents as locations, or more)
    agents = [m.core.Agent(i % 7, i % 3, i) for i in range(len(cells) if occ else 40)]
    what = '%s single %d p %d q %d' % (params, occ, p, q)
    for i, a in enumerate(agents):
        space.add(a)
        model.members.append(i)
    for rnd in range(5):
        for j in range(len(agents)):
            i = len(agents) - 1 - j if rev and rnd % 2 else j
            a = agents[i]
            act = (i * p + rnd * q) % 8
            if act == 0 and i in model.members:
                space.remove(a)
                model.members.remove(i)
                model.unplace(i)
                continue
            if i not in model.members:
                space.add(a)
                model.members.append(i)
            if act == 1:
                space.add(a)    # again: nothing happens
            raw = cells[(i * (p if rnd % 2 else 1) + rnd * (q + 1)) % (len(cells) if occ or rnd % 2 else 3)]
            ret = space.move(a, mk(*raw))
            ok = model.place(i, model.target(raw))
            if (ret is None) != (ok is False) or ok and pt_tuple(ret) != raw:
                raise Violation('%s round %d: move of agent %d to %s returned %s' % (what, rnd, i, raw, ret if ret is None else pt_tuple(ret)))
        ch.step()
        try:
            check_space(space, model, agents, cells, mk, num=kind in ('sgrid', 'scspace'))
        except Violation as v:
            v.msg = '%s after round %d: %s' % (what, rnd, v.msg)
            raise
        ch.state((what, rnd, sorted(model.loc.items())))


def run(params, ch):
    if params[0] == 'wide':
        run_world(1, _wide, params, ch)
        return
    run_world(1, _prog, params, ch)


ASSUMPTIONS = ('three agents, four target points per configuration, sequences of 4 (thorough: 5) operations; up to 40 agents that move by formulas',)
