"""Requested ghosts and ghosts in general: they exist from the request until
their agent is removed or comes to live here, follow their agent's state and
rank at every synchronization, and leave no trace when they go."""
from .. import worlds
from ..worlds import Cfg

ID = 'C05'

B1 = (0, 4, 0, 0, 0, 0)
B1x3 = (0, 6, 0, 0, 0, 0)


def items(tier):
    deep = tier == 'thorough'
    out = []
    for kinds in ('', 'g', 'c', 'gc'):
        for rest in ('new', 'cache'):
            out.append((2, 1, kinds, rest, 4 if deep else 3, 1))
    out.append((2, 1, 'g', 'new', 2, 2))
    out.append((2, 1, 'g', 'cache', 2, 2))
    out.append((2, 0, 'g', 'new', 3, 1))
    out.append((3, 1, 'g', 'new', 3 if deep else 2, 1))
    out.append((3, 1, 'c', 'cache', 3 if deep else 2, 1))
    out.append((3, 0, '', 'new', 3, 1))
    out.append((4, 1, 'g', 'new', 2, 1))
    if deep:
        out.append((2, 1, 'gc', 'cache', 3, 2))
        out.append((3, 1, 'g', 'cache', 2, 2))
    res = []
    for n, buf, kinds, rest, rounds, na in out:
        box = (0, 2 * n, 0, 0, 0, 0)
        res.append(('n%d-b%d-%s-%s-r%d-a%d' % (n, buf, kinds or 'none', rest, rounds, na), (Cfg(n, box, n == 3, buf, kinds, rest), rounds, na)))
    return res + worlds.wide_items(('', 'g', 'gc'), more=deep)


def run(params, ch):
    if params[0] == 'wide':
        return worlds.run_wide(params, ch)
    cfg, rounds, na = params
    cells = cfg.cells() if cfg.kinds else []

    def gen(model, ch, i):
        if i > rounds:
            return None
        if i == 0:
            ops = []
            for a in range(na):
                r = ch.pick(cfg.n) if a and cfg.n > 2 else a
                mine = [c for c in cells if model.owner(c) == r]
                ops.append(('add', (a, a, r), mine[-1] if mine and a == 0 else None, a + 1))
            return ops, ('sync',)
        us = sorted(model.rank)
        if not us:
            return None
        u = us[0]
        acts = [('set',), ('rm',), ('add',)]
        if cells:
            acts += [('mv', c) for c in cells]
        reqs = [('req', r, x) for x in us for r in range(cfg.n) if r != model.rank[x] and (r, x) not in model.req]
        if len(us) > 1 and cfg.n == 2 and model.rank[us[0]] != model.rank[us[1]]:
            reqs.append(('reqboth',))
        if cfg.n > 2:
            reqs.append(('reqall',))
        acts += reqs + [('moveto', r) for r in range(cfg.n) if r != model.rank[u]]
        act = ch.choose(acts)
        ops = [('set', x, 100 * i + x[0]) for x in us]
        # a later synchronization shows what a request or a partial one left behind
        coll = ('sync',) if i == rounds or act[0] in ('req', 'reqboth', 'reqall', 'moveto') else ch.choose((('sync',), ('nosync',)))
        if act[0] == 'req':
            # the request itself must give the current state; then synchronize
            return ops, ('request+sync' if i == rounds or ch.pick(2) else 'request', ((act[1], act[2]),))
        if act[0] == 'reqboth':
            return ops, ('request+sync', tuple((1 - model.rank[x], x) for x in us))
        if act[0] == 'reqall':
            return ops, ('request+sync', tuple((r, u) for r in range(cfg.n) if r != model.rank[u]))
        if act[0] == 'moveto':
            return ops, ('moveto', ((u, act[1]),))
        if act[0] == 'rm':
            ops.append(('rm', u))
        elif act[0] == 'add':
            r = ch.pick(cfg.n)
            ops.append(('add', (10 + i, 0, r), None, 5))
        elif act[0] == 'mv':
            ops.append(('mv', u, (act[1],)))
        return ops, coll
    worlds.run_script(cfg, ch, gen)
