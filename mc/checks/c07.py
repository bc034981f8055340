"""A context is exactly the collection of the agents added and not removed, by
type, in order, with its projections."""
import itertools

from ..common import EnumRng, expect, expect_eq, run_world
from ..engine import Violation

ID = 'C07'
UIDS = [(0, 0), (1, 0), (0, 1), (2, 1), (1, 2)]
PROJS = ['grid', 'space', 'net', 'dnet']


def items(tier):
    deep = tier == 'thorough'
    out = []
    for n in (3, 4):
        for rank in (0,) if not deep else (0, 1):
            out.append(('ops-%dagents-rank%d' % (n, rank), ('ops', n, (7 if n == 3 else 6) + deep, rank)))
    for n in range(0, 5):
        for c in list(range(0, n + 2)) + [None]:
            for ty in (None, 0, 1):
                out.append(('shuffle-%d-%s-%s' % (n, c, ty), ('shuffle', n, c, ty)))
    return out + [('wide-%d' % n, ('wide', n)) for n in (40, 400)]


def make_proj(m, comm, kind, name):
    sp = m.space
    bb = m.geometry.BoundingBox(0, 4, 0, 4, 0, 0)
    if kind == 'grid':
        return sp.SharedGrid(name, bb, sp.BorderType.Sticky, sp.OccupancyType.Multiple, 0, comm)
    if kind == 'space':
        return sp.SharedCSpace(name, bb, sp.BorderType.Sticky, sp.OccupancyType.Multiple, 0, comm, 10)
    if kind == 'net':
        return m.network.UndirectedSharedNetwork(name, comm)
    return m.network.DirectedSharedNetwork(name, comm)


def check_ctx(ctx, order, objs, projs, uids):
    what = 'with agents %s' % (order,)
    expect_eq([a.uid for a in ctx.agents()], order, what + ': agents()')
    for a in ctx.agents():
        expect(a is objs[a.uid], '%s: agents() gives another object for %s', what, a.uid)
    expect_eq(ctx.size(), {-1: len(order)}, what + ': size()')
    types = sorted({u[1] for u in uids})
    seen = [t for t in types if t in ctx_types(ctx, uids)]
    for t in types:
        mine = [u for u in order if u[1] == t]
        expect_eq(bool(ctx.contains_type(t)), bool(mine), '%s: contains_type(%d)' % (what, t))
        if t in seen:
            expect_eq([a.uid for a in ctx.agents(t)], mine, '%s: agents(%d)' % (what, t))
            expect_eq([a.uid for a in ctx.agents(agent_type=t, count=1)], mine[:1], '%s: agents(%d, count=1)' % (what, t))
    expect(not ctx.contains_type(77), 'contains_type(77)')
    want = {t: len([u for u in order if u[1] == t]) for t in seen}
    if seen:
        expect_eq(ctx.size(list(seen)), want, '%s: size(%s)' % (what, seen))
        expect_eq(ctx.size([seen[-1]]), {seen[-1]: want[seen[-1]]}, '%s: size(%s)' % (what, [seen[-1]]))
    for c in (0, 1, 2, len(order), len(order) + 1):
        expect_eq([a.uid for a in ctx.agents(count=c)], order[:c], '%s: agents(count=%d)' % (what, c))
    for u in uids:
        a = ctx.agent(u)
        expect((a is objs[u]) if u in order else a is None, '%s: agent(%s) gives %s', what, u, a)
        expect(ctx.ghost_agent(u) is None, '%s: ghost_agent(%s)', what, u)
    for name, p in projs.items():
        expect(ctx.get_projection(name) is p, 'get_projection(%s) gives another one', name)
        for u in uids:
            if u in objs:
                expect_eq(bool(objs[u] in p), u in order, '%s: whether %s is in projection %s' % (what, u, name))
        if hasattr(p, 'node_count'):
            expect_eq(p.node_count, len(order), '%s: nodes of %s' % (what, name))


_seen = {}


def ctx_types(ctx, uids):
    """types an agent of which was ever in the context"""
    return _seen[id(ctx)]


def _ops(m, rank, comm, n, depth, which, ch):
    ctx = m.context.SharedContext(comm)
    if rank != which:
        return
    _seen.clear()
    types = _seen[id(ctx)] = set()
    uids = [(i, t, rank) for i, t in UIDS[:n]]
    order, objs, projs = [], {}, {}
    loc = {}
    nfree = 0
    for step in range(depth):
        # agents enter for the first time in a fixed order
        ops = [('rm', u) for u in order]
        ops += [('add', u) for u in uids[:nfree + 1] if u not in order]
        ops += [('proj', k) for k in PROJS if k not in projs and (not projs or PROJS.index(k) > max(PROJS.index(x) for x in projs))]
        op = ch.choose(ops)
        if op[0] == 'add':
            u = op[1]
            nfree = max(nfree, uids.index(u) + 1)
            # a removed agent may come back
            if u not in objs:
                objs[u] = m.core.Agent(*u)
            a = objs[u]
            ctx.add(a)
            order.append(u)
            types.add(u[1])
            expect_eq(a.local_rank, rank, 'local rank')
            expect_eq(a.uid, u, 'uid')
            for k in ('grid', 'space'):
                if k in projs:
                    expect(projs[k].get_location(a) is None, 'location of a just added agent in %s', k)
                    pt = (m.space.DiscretePoint if k == 'grid' else m.space.ContinuousPoint)(uids.index(u), 0, 0)
                    expect(projs[k].move(a, pt) is not None, 'move in %s', k)
                    loc[k, u] = uids.index(u)
        elif op[0] == 'rm':
            ctx.remove(objs[op[1]])
            order.remove(op[1])
            loc = {k: v for k, v in loc.items() if k[1] != op[1]}
        else:
            p = make_proj(m, comm, op[1], op[1])
            for other in projs:
                try:
                    ctx.add_projection(make_proj(m, comm, op[1], other))
                except ValueError:
                    continue
                raise Violation('a second projection named %s was accepted' % other)
            ctx.add_projection(p)
            projs[op[1]] = p
        ch.step()
        if ch.fresh():
            check_ctx(ctx, order, objs, projs, uids)
            for k in ('grid', 'space'):
                if k in projs:
                    for x in range(4):
                        pt = (m.space.DiscretePoint if k == 'grid' else m.space.ContinuousPoint)(x, 0, 0)
                        got = [a.uid for a in projs[k].get_agents(pt)]
                        expect_eq(got, [u for u in order if loc.get((k, u)) == x], 'agents of %s at %d' % (k, x))
            try:
                ctx.get_projection('nope')
            except KeyError:
                pass
            else:
                raise Violation('get_projection of an unknown name')
            ch.state((tuple(order), tuple(sorted(projs)), tuple(sorted(types))))


def _shuffle(m, rank, comm, n, count, ty, ch, out):
    ctx = m.context.SharedContext(comm)
    uids = [(i, i % 2, 0) for i in range(n)]
    for u in uids:
        ctx.add(m.core.Agent(*u))
    rng = m.random.default_rng
    m.random.default_rng = EnumRng(ch)
    pool = uids if ty is None else [u for u in uids if u[1] == ty]
    if ty is not None and not pool:
        return
    try:
        got = [a.uid for a in ctx.agents(agent_type=ty, count=count, shuffle=True)]
    finally:
        m.random.default_rng = rng
    want = len(pool) if count is None else min(count, len(pool))
    expect(len(got) == want and len(set(got)) == want and set(got) <= set(pool), 'agents(%s, count=%s, shuffle) of %s gives %s', ty, count, pool, got)
    ch.step()
    ch.state((n, count, ty, tuple(got)))
    out.append(tuple(got))
    # shuffling changes nothing in the context
    expect_eq([a.uid for a in ctx.agents()], uids, 'agents() after a shuffle')
    if ty is not None:
        expect_eq([a.uid for a in ctx.agents(ty)], pool, 'agents(%s) after a shuffle' % ty)
    expect_eq([a.uid for a in ctx.agents(count=2)], uids[:2], 'agents(count=2) after a shuffle')


def _wide(m, rank, comm, n, p, q, ch):
    """many agents, of which many are removed and added again"""
    ctx = m.context.SharedContext(comm)
    _seen.clear()
    types = _seen[id(ctx)] = set()
    order, objs, projs = [], {}, {}
    uids = [(i * 37 % 1009, i * p % 5, i % 3) for i in range(n)]
    kinds = list(PROJS)
    for rnd in range(4):
        if rnd == q % 4:
            for k in kinds:
                projs[k] = make_proj(m, comm, k, k)
                ctx.add_projection(projs[k])
        for j, u in enumerate(uids):
            if (j * p + rnd) % 3 and u not in order:
                if u not in objs or j % 2:
                    objs[u] = m.core.Agent(*u)
                ctx.add(objs[u])
                order.append(u)
                types.add(u[1])
        check_ctx(ctx, order, objs, projs, uids)
        for j, u in enumerate(uids):
            if (j + q * rnd) % 4 == 1 and u in order:
                ctx.remove(objs[u])
                order.remove(u)
        ch.step()
        check_ctx(ctx, order, objs, projs, uids)
        ch.state((n, rnd, tuple(order)))
        if projs:
            # the spaces hold the agents in the order of their moves
            for k in ('grid', 'space'):
                at = {}
                mk = m.space.DiscretePoint if k == 'grid' else m.space.ContinuousPoint
                for j, u in enumerate(order):
                    pos = ((j * p + rnd) % 4, j % 4, 0)
                    expect(projs[k].move(objs[u], mk(*pos)) is not None, 'move in %s', k)
                for j, u in enumerate(order):
                    pt = projs[k].get_location(objs[u])
                    expect_eq((pt.x, pt.y, pt.z), ((j * p + rnd) % 4, j % 4, 0), 'location of %s in %s' % (u, k))
                    at.setdefault((pt.x, pt.y), set()).add(u)
                for (x, y), us in at.items():
                    expect_eq({a.uid for a in projs[k].get_agents(mk(x, y, 0))}, us, 'agents of %s at %s' % (k, (x, y)))


def run(params, ch):
    if params[0] == 'wide':
        run_world(1, _wide, params[1], 1 + ch.pick(4), ch.pick(4), ch)
        return
    if params[0] == 'ops':
        run_world(params[3] + 1, _ops, *params[1:], ch)
        return
    _, n, count, ty = params
    out = []
    run_world(1, _shuffle, n, count, ty, ch, out)
    if not ch.prefix or not any(ch.prefix):
        # the first execution also enumerates all outcomes: every arrangement
        # must be possible
        from ..common import enumerate_all
        res = []
        enumerate_all(lambda c: run_world(1, _shuffle, n, count, ty, c, res))
        pool = [(i, i % 2, 0) for i in range(n) if ty is None or i % 2 == ty]
        if ty is not None and not pool:
            return
        k = len(pool) if count is None else min(count, len(pool))
        want = set(itertools.permutations(pool, k))
        if set(res) != want:
            raise Violation('agents(%s, count=%s, shuffle=True) of %s never gives %s' % (ty, count, pool, sorted(want - set(res))[:3]))


ASSUMPTIONS = ('up to four agents of two types, sequences of 6-7 (thorough: 7-8) operations; queries by types that never were in the context are left out',)
