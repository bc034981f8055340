"""Agents that move are local to exactly one rank, the one their location
belongs to, with their state."""
import itertools

from .. import worlds
from ..worlds import Cfg

ID = 'C03'

B1 = (0, 4, 0, 0, 0, 0)
B1o = (-3, 6, 0, 0, 0, 0)
B2 = (0, 4, 0, 2, 0, 0)
B2o = (-2, 4, 1, 4, 0, 0)
B3 = (0, 2, 0, 2, 0, 2)


def configs(deep):
    """(name, configuration, agents, rounds)"""
    out = []
    for kinds in ('g', 'c', 'gc'):
        for rest in ('new', 'cache'):
            out.append(('1d', Cfg(2, B1, 0, 1, kinds, rest), 2 if deep else 1, 2))
    out.append(('1d2', Cfg(2, B1, 0, 1, 'g'), 2, 2))
    out.append(('1d2', Cfg(2, B1, 1, 1, 'c', 'cache'), 2, 2 if deep else 1))
    for per in (0, 1):
        for buf in (0, 1):
            out.append(('1d3', Cfg(3, B1o, per, buf, 'g'), 2 if deep else 1, 2))
            out.append(('2d4', Cfg(4, B2o, per, buf, 'g' if buf else 'c'), 1, 2 if deep else 1))
            out.append(('2d2', Cfg(2, B2, per, buf, 'c' if buf else 'gc'), 2 if deep else 1, 2))
    out.append(('1d3', Cfg(3, B1o, 1, 1, 'g'), 2, 1))
    out.append(('3d', Cfg(4, B3, 0, 1, 'g'), 1, 2 if deep else 1))
    # ranks that are no neighbours, with different bounds in every dimension
    out.append(('2d6', Cfg(6, (-3, 6, 5, 2, 0, 0), 0, 1, 'g'), 1, 1))
    out.append(('2d6', Cfg(6, (0, 3, 0, 4, 0, 0), 1, 1, 'c'), 1, 1))
    out.append(('3d12', Cfg(12, (-1, 3, 0, 2, 5, 2), 0, 1, 'c' if deep else 'g'), 1, 1))
    out.append(('3d8', Cfg(8, B3, 1, 1, 'gc'), 1, 2 if deep else 1))
    return out


def items(tier):
    deep = tier == 'thorough'
    return [('%s-%d-%s' % (nm, i, c.kinds), (c, na, d)) for i, (nm, c, na, d) in enumerate(configs(deep))] + worlds.wide_items(('g', 'c'), more=deep)


def run(params, ch):
    if params[0] == 'wide':
        return worlds.run_wide(params, ch)
    cfg, na, depth = params
    cells = cfg.cells()

    def gen(model, ch, i):
        if i > depth:
            return None
        if i == 0:
            # agents are added, and start on their own rank
            ops = []
            for a in range(na):
                r = ch.pick(cfg.n) if a == 0 else cfg.n - 1
                mine = [c for c in cells if model.owner(c) == r]
                ops.append(('add', (a, a % 2, r), ch.choose((mine[0], mine[-1])), 10 + a))
            return ops, ('sync',)
        ops = []
        us = sorted(model.rank)
        for j, u in enumerate(us):
            acts = [None] + [('mv', u, (c,)) for c in cells]
            if j == 0:
                # leaves and comes back, or goes elsewhere, before the synchronization
                acts += [('mv', u, (cells[-1], cells[0])), ('mv', u, (cells[0], cells[-1])), ('rm', u), ('mvrm', u)]
            op = ch.choose(acts)
            if op is None:
                continue
            if op[0] == 'mvrm':
                ops += [('mv', u, (cells[-1],)), ('rm', u)]
            else:
                if op[0] == 'mv':
                    ops.append(('set', u, 100 * i + u[0]))
                ops.append(op)
        if i < depth:
            colls = [('sync',), ('nosync',)]
        else:
            colls = [('sync',)]
        if us and us[0] in [x for x in us if not any(o[0] == 'rm' and o[1] == x for o in ops)]:
            colls += [('moveto', ((us[0], r),)) for r in range(cfg.n) if r != model.rank[us[0]]][:2]
        return ops, ch.choose(colls)
    worlds.run_script(cfg, ch, gen)
