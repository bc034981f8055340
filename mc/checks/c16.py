"""Agents, spaces and networks restored from the checkpoints of all ranks are
those saved, and go on as such."""
from .. import worlds
from ..common import run_world
from ..engine import Violation
from ..worlds import Cfg
from .c06 import acts_on

ID = 'C16'
ASSUMPTIONS = ('networks are saved right after a synchronization; agents only requested as ghosts, not linked or buffered, are not part of a checkpoint',
               'restored on the same number of ranks with the same spaces, followed by a synchronization as documented')


def items(tier):
    deep = tier == 'thorough'
    out = []
    # projections, ranks, agents per rank, box, periodic, buffer, restore
    for kinds, n, na, rest in [
            ('g', 2, (2, 1), 'new'), ('c', 2, (1, 1), 'cache'), ('u', 2, (2, 1), 'new'), ('d', 2, (2, 1), 'new'), ('gc', 2, (1, 1), 'new'),
            ('gd', 2, (1, 1), 'new'), ('cu', 2, (1, 1), 'new'), ('ud', 2, (1, 1), 'new'), ('d', 3, (1, 1, 1), 'new'), ('u', 3, (1, 1, 1), 'cache'),
            ('gu', 3, (1, 1, 0), 'new'), ('gcud', 2, (1, 1), 'new')]:
        out.append(('%s-n%d-%s-%s' % (kinds, n, ''.join(map(str, na)), rest),
                    (Cfg(n, (0, 2 * n, 0, 0, 0, 0), n == 3, 1, kinds, rest), na, 1)))
    out.append(('gc-n4-2d-1001-new', (Cfg(4, (0, 4, -1, 4, 0, 0), 1, 1, 'gc', 'new'), (1, 0, 0, 1), 1)))
    out += [('missing-%s' % k, ('missing', k)) for k in 'ud']
    if deep:
        for kinds, n, na, rest in [('gd', 2, (2, 1), 'new'), ('cu', 3, (1, 1, 0), 'new'), ('ud', 2, (2, 1), 'new'), ('d', 3, (1, 1, 1), 'cache'),
                                   ('g', 3, (1, 1, 0), 'new'), ('d', 2, (2, 2), 'new'), ('u', 2, (2, 1), 'new')]:
            out.append(('deep-%s-n%d-%s-%s' % (kinds, n, ''.join(map(str, na)), rest),
                        (Cfg(n, (0, 2 * n, 0, 0, 0, 0), n == 3, 1, kinds, rest), na, 2)))
    return out + worlds.wide_items(('g', 'gcud'), ('pickle synced', 'memory agents synced'), more=deep)


def _missing(m, rank, comm, kind, ch):
    """an agent of the network that has not been restored is reported"""
    cfg = Cfg(2, (0, 4, 0, 0, 0, 0), 0, 0, kind)
    r = worlds.Rank(m, rank, comm, cfg)
    for i in range(2):
        r.do(('add', (i, 0, rank), None, 0))
    net = r.projs[kind]
    if ch.pick(2):
        net.add_edge(r.ctx.agent((0, 0, rank)), r.ctx.agent((1, 0, rank)))
    c = m.checkpoint.Checkpoint()
    c.save_network(net, rank)
    new = worlds.Rank(m, rank, comm, cfg)
    if ch.pick(2):
        new.do(('add', (0, 0, rank), None, 0))
    try:
        c.restore_network(new.ctx, new.projs[kind], new.restore)
    except ValueError:
        ch.step()
        return
    raise Violation('no error when the agents of a network are missing')


MODES = ('pickle', 'memory', 'pickle agents', 'memory last')


def run(params, ch):
    if params[0] == 'wide':
        return worlds.run_wide(params, ch)
    if params[0] == 'missing':
        run_world(2, _missing, params[1], ch)
        return
    cfg, na, rounds = params
    single = len(cfg.kinds) == 1
    cells = cfg.cells()
    some = cells[::3] if cfg.n == 4 else cells

    def acts(model):
        us = sorted(model.rank)
        out = []
        if cfg.spaces:
            for u in us:
                # next to the border of every rank or not
                out += [('mv', u, (c,)) for c in (cells if single or cfg.n == 2 else some[::2])]
        snap = model.snapshot()
        for net in cfg.nets:
            for r in range(cfg.n):
                out += [a + ({'w': len(us) + r},) if a[0] in ('edge', 'upd') else a for a in acts_on(snap, snap, r, net, {})]
        out += [('rm', u) for u in us]
        return out

    def gen(model, ch, i):
        us = sorted(model.rank)
        ops = [('set', u, 1000 * i + u[0]) for u in us]
        if i == 0:
            for r, k in enumerate(na):
                # one agent that is not in the spaces yet
                ops += [('add', (a, a, r), cells[len(cells) // cfg.n * r + a] if cfg.spaces and a == 0 else None, 10 * r + a) for a in range(k)]
            return ops, ('sync',)
        if i == 1:
            if not cfg.nets:
                return ops, ('sync',)
            pairs = tuple((r, u) for u in us for r in range(cfg.n) if r != model.rank[u])
            return ops, ('request+sync', pairs)
        if i == 2:
            # edges, in either direction, within and between ranks; agents on ranks other than that of their origin
            for net in cfg.nets:
                for a, u in enumerate(us):
                    for v in us[a + 1:]:
                        e = ch.choose([None, (u, v)] + ([(v, u)] if net == 'd' else []))
                        if e is not None:
                            rs = [r for r in range(cfg.n) if r in (model.rank[u], model.rank[v])]
                            ops.append(('edge', rs[-1], net) + e + ({'w': 10 * a, 'l': 'x'},))
            return ops, ('sync',)
        if i == 3:
            if not cfg.spaces:
                to = ch.choose([()] + [((u, r),) for u in us for r in range(cfg.n) if r != model.rank[u]])
                return ops, ('moveto', to)
            if not single and ch.pick(2) == 0:
                return ops, ('sync',)
            u = ch.choose(us)
            ops.append(('mv', u, (ch.choose(some),)))
            return ops, ('sync',)
        if i == 4:
            how = ch.choose(['ckpt', 'save'])
            if how == 'save':
                return ops, ('save', ch.choose(MODES[:2]))
            mode = ch.choose(MODES if cfg.n == 2 else MODES[1:3])
            if not cfg.nets and ch.pick(2):
                # saved with agents out of the bounds of their rank
                u = ch.choose(us)
                ops.append(('mv', u, (ch.choose(some),)))
                return ops, ('ckpt', mode)
            return ops, ('ckpt', mode + ' synced')
        if i <= 4 + rounds:
            a = acts(model)
            if not a:
                return None
            return ops + [ch.choose(a)], ('sync',)
        if i == 5 + rounds and model.saved is not None:
            m = 'pickle' if 'pickle' in saved_mode[0] else 'memory'
            return ops, ('back', m + ch.choose(('', ' agents')))
        return None
    saved_mode = ['']

    def gen2(model, ch, i):
        s = gen(model, ch, i)
        if s is not None and s[1][0] == 'save':
            saved_mode[0] = s[1][1]
        return s
    worlds.run_script(cfg, ch, gen2)
