"""Shared networks: every rank has exactly the edges its agents take part in,
with the same attributes on both sides, whoever adds, changes or removes them
and wherever the agents go."""
from .. import worlds
from ..worlds import Cfg

ID = 'C06'


def items(tier):
    deep = tier == 'thorough'
    out = []
    # ranks, agents per rank, projections, restore, rounds, operations per round, movement and removal
    for net in 'ud':
        mine = deep or net == 'u'
        out.append(('edges', 2, (2, 1), net, 'new', 2 if deep else 1, 2, 'e'))
        out.append(('edges', 2, (1, 1), net, 'new', 3 if deep else 2, 2, 'ec'))
        out.append(('edges', 3, (1, 1, 1), net, 'cache', 2 if deep else 1, 2, 'e'))
        out.append(('edges', 2, (1, 1), net, 'new', 2, 3 if deep else 2, 'eR'))
        out.append(('edges', 3, (1, 1, 1), net, 'new', 2 if deep else 1, 3 if deep else 2, 'eR'))
        out.append(('move', 2, (1, 1), net, 'new', 4, 1, 'em'))
        out.append(('move', 2, (2, 1), net, 'new', 3, 1, 'em'))
        if not mine or deep:
            out.append(('move', 3, (1, 1, 0), net, 'new', 4 if deep else 3, 1, 'em'))
            out.append(('move', 3, (1, 1, 1), net, 'new', 3, 1, 'em'))
        out.append(('move', 3, (1, 1, 0), net, 'cache', 3, 1, 'em'))
        out.append(('remove', 2, (2, 1), net, 'new', 3, 1, 'er'))
        out.append(('remove', 3, (1, 1, 1), net, 'new', 3 if mine else 2, 1, 'er'))
        out.append(('all', 2, (1, 1), net, 'new', 5 if deep else 4, 1, 'emrc'))
        # edges from agents to themselves
        out.append(('loops', 2, (1, 1), net, 'new', 4 if deep else 3, 1, 'emrcl'))
        out.append(('loops', 2, (2, 0), net, 'cache', 3, 1, 'emrl'))
        out.append(('loops', 2, (1, 1), net, 'new', 2 if deep else 1, 3, 'el'))
        # the ghosts are those in the buffers
        out.append(('near', 2, (1, 1), 'g' + net, 'new', 3, (2, 2, 1) if deep else (2, 1, 1), 'emrc'))
        out.append(('near', 2, (2, 1), 'g' + net, 'new', 3 if deep else 2, (2, 2 if deep else 1, 1), 'emr'))
        if deep:
            out.append(('near', 3, (1, 2, 1), 'c' + net, 'cache', 3, (2, 1, 1), 'emr'))
    out.append(('near', 2, (1, 1), 'gud', 'new', 3 if deep else 2, (2, 1, 1), 'emr'))
    out.append(('near', 2, (2, 1), 'gu', 'new', 3, (1, 1, 1), 'emr'))
    out.append(('two', 2, (1, 1), 'ud', 'new', 4 if deep else 3, 1, 'emr'))
    if deep:
        out.append(('two', 2, (1, 1), 'du', 'cache', 3, 1, 'emr'))
        out.append(('two', 3, (1, 1, 0), 'ud', 'new', 3, 1, 'emr'))
    res = []
    for net in 'ud':
        quick = [(2, (2, 1), '', 'new', 2, 0), (3, (1, 1, 1), '', 'new', 1, 0), (3, (1, 1, 0), '', 'cache', 2, 0), (3, (1, 1, 1), 'c', 'new', 1, 0)]
        quick += [(2, (1, 1), 'g', 'new', 3, 1), (3, (1, 1, 0), 'g', 'new', 2, 1)] if net == 'u' else [
            (2, (1, 1), 'gc', 'cache', 2, 1), (2, (2, 1), 'c', 'new', 1, 1)]
        for n, na, kinds, rest, rounds, buf in quick if not deep else [
                (2, (2, 1), '', 'new', 3, 0), (3, (1, 1, 1), '', 'new', 2, 0), (3, (2, 1, 0), '', 'cache', 2, 0),
                (2, (1, 1), 'g', 'new', 3, 1), (2, (2, 1), 'c', 'new', 2, 1), (3, (1, 1, 0), 'g', 'new', 2, 1), (3, (1, 1, 1), 'g', 'cache', 1, 1),
                (2, (1, 1), 'gc', 'cache', 2, 1), (3, (1, 1, 1), 'c', 'new', 1, 0),
                (2, (2, 2), '', 'new', 2, 0), (3, (1, 1, 1), 'g', 'new', 2, 1), (4, (1, 1, 1, 0), '', 'new', 2, 0)]:
            cfg = Cfg(n, (0, 2 * n, 0, 0, 0, 0), n == 3, buf, kinds + net, rest)
            res.append(('multi-%s-n%d-%s-%s-%s-r%d-b%d' % (net, n, ''.join(map(str, na)), kinds or 'none', rest, rounds, buf), (cfg, rounds, 0, na, 'multi')))
    for name, n, na, kinds, rest, rounds, nops, what in out:
        res.append(('%s-%s-n%d-%s-%s-%s-r%d-o%s' % (name, what, n, ''.join(map(str, na)), kinds, rest, rounds, ''.join(map(str, nops if isinstance(nops, tuple) else (nops,)))),
                    (Cfg(n, (0, 2 * n, 0, 0, 0, 0), 0, 1, kinds, rest), rounds, nops, na, what)))
    # a network is added to a context that has ghosts for other reasons
    for n, na, kinds, rest, rounds in [(2, (1, 1), 'gu', 'new', 4), (2, (1, 1), 'cd', 'cache', 4), (2, (1, 1), 'du', 'new', 4), (2, (1, 1), 'ud', 'cache', 4)] + (
            [(2, (2, 1), 'gu', 'new', 4), (2, (1, 1), 'gdu', 'new', 4), (3, (1, 1, 1), 'du', 'new', 4)] if deep else []):
        res.append(('late-n%d-%s-%s-%s-r%d' % (n, ''.join(map(str, na)), kinds, rest, rounds),
                    (Cfg(n, (0, 2 * n, 0, 0, 0, 0), 0, 1, kinds, rest, late=kinds[-1]), rounds, 0, na, 'late')))
    # agents leave, edges change and agents move, all between two synchronizations
    for what, n, na, kinds, rest, rounds in [('churn', 2, (2, 1), 'u', 'new', 1), ('churn', 3, (1, 1, 1), 'u', 'new', 1), ('churn', 3, (1, 1, 1), 'd', 'cache', 1),
                                             ('churn', 2, (1, 1), 'ud', 'new', 1), ('churn', 2, (1, 1), 'gdu', 'cache', 1), ('churn', 2, (1, 1), 'cu', 'new', 1),
                                             ('churn', 2, (3, 0), 'u', 'new', 1), ('churn', 2, (2, 0), 'ud', 'new', 1), ('churn', 2, (2, 0), 'du', 'new', 1), ('churn', 2, (3, 0), 'd', 'cache', 1)] + (
            [('full', 2, (2, 1), 'd', 'cache', 1), ('full', 2, (1, 1), 'u', 'new', 2), ('full', 3, (1, 1, 1), 'u', 'new', 1), ('full', 2, (2, 1), 'gu', 'new', 1),
             ('churn', 2, (1, 1), 'du', 'cache', 2), ('full', 2, (2, 1), 'ud', 'new', 1), ('churn', 3, (3, 0, 0), 'u', 'cache', 1), ('full', 2, (3, 0), 'u', 'cache', 1), ('churn', 2, (3, 0), 'ud', 'new', 1), ('churn', 2, (2, 0), 'ud', 'new', 2), ('full', 3, (1, 1, 1), 'gd', 'new', 1)] if deep else []):
        res.append(('%s-n%d-%s-%s-%s-r%d' % (what, n, ''.join(map(str, na)), kinds, rest, rounds),
                    (Cfg(n, (0, 2 * n, 0, 0, 0, 0), 0, 1, kinds, rest), rounds, 0, na, what)))
    return (res + worlds.wide_items(('u', 'd', 'ud', 'gu', 'cd', 'gu+d') + (('gcud',) if deep else ()), more=deep) +
            worlds.wide_items(('gcu',), more=deep, cbuf=True))


def acts_on(model, snap, r, net, pend, loops=False):
    """network operations rank r can do: agents it knows, edges it sees (loops: also from an agent to itself)"""
    # (an agent may be removed, by its rank, after the edge has been created)
    known = sorted([u for u, k in model.rank.items() if k == r] + [u for u in snap.ghosts(r)[0] if u in model.rank])
    mine = [u for u in known if model.rank[u] == r]
    out = []
    for i, u in enumerate(known):
        for v in known[i + (not loops):]:
            if u not in mine and v not in mine:
                continue
            for a, b in ((u, v), (v, u))[:1 if u == v else 2]:
                key = model.ekey(net, a, b)
                if key in pend and pend[key] != r:
                    continue
                if key not in model.edges[net]:
                    out.append(('edge', r, net, a, b))
                elif (a, b) == key or net == 'u':
                    # on an undirected edge, either order of the agents
                    out.append(('upd', r, net, a, b))
                    out.append(('cut', r, net, a, b))
                    if (a, b) == key:
                        out.append(('edge', r, net, a, b))
    return out


def multi(cfg, rounds, na):
    """all agents move at once: to every combination of ranks, with every set of edges"""
    def gen(model, ch, i):
        us = sorted(model.rank)
        net = cfg.nets[0]
        ops = [('set', u, 1000 * i + u[0]) for u in us]
        if i == 0:
            for r, k in enumerate(na):
                ops += [('add', (a, 0, r), (2 * r + a % 2, 0, 0) if cfg.spaces else None, 10 * r + a) for a in range(k)]
            return ops, ('sync',)
        if i == 1:
            return ops, ('request+sync', tuple((r, u) for u in us for r in range(cfg.n) if r != model.rank[u]) if ch.pick(2) else ())
        if i == 2:
            # edges between agents that know each other
            for a, u in enumerate(us):
                for v in us[a + 1:]:
                    rs = [r for r in range(cfg.n) if r in (model.rank[u], model.rank[v]) and
                          all(model.rank[x] == r or x in model.ghosts(r)[0] for x in (u, v))]
                    r = ch.choose([None] + rs[:1])
                    if r is not None:
                        ops.append(('edge', r, net) + ((u, v) if a % 2 else (v, u)) + ({'w': 10 * us.index(u) + us.index(v)},))
            # agents may also move before the edges are known to the other rank
            if model.cfg.restore == 'new' or not ch.pick(2):
                return ops, ('sync',)
        if i <= 2 + rounds:
            if cfg.spaces and ch.pick(2):
                for u in us:
                    # every rank, next to its border or not
                    ops.append(('mv', u, ((2 * ch.pick(cfg.n) + (u[0] + u[2]) % 2, 0, 0),)))
                return ops, (ch.choose(('sync', 'nosync')) if i < 2 + rounds else 'sync',)
            to = tuple((u, r) for u, r in ((u, ch.pick(cfg.n)) for u in us) if r != model.rank[u])
            return ops, ('moveto', to)
        if i == 3 + rounds:
            # either side can change and remove the edges
            acts = [(k, r, net, u, v) for u, v in sorted(model.edges[net]) for r in sorted({model.rank[u], model.rank[v]}) for k in ('upd', 'cut')]
            if not acts:
                return None
            return ops + [ch.choose(acts) + ({'x': i},)], ('sync',)
        return None
    return gen


def late(cfg, rounds, na):
    has = [k for k in cfg.nets if k not in cfg.late]

    def gen(model, ch, i):
        us = sorted(model.rank)
        if i == 0:
            return [('add', (a, 0, r), (2 * r + (r == 0 or a > 0), 0, 0) if cfg.spaces else None, 10 * r + a) for r, k in enumerate(na) for a in range(k)], ('sync',)
        if i > rounds or not us:
            return None
        ops = [('set', u, 1000 * i + u[0]) for u in us]
        acts = [] if len(has) == len(cfg.nets) else [('proj', cfg.late)]
        if i < rounds - 1 or not acts:
            for net in has:
                for r in range(cfg.n):
                    acts += acts_on(model, model, r, net, {})
            if cfg.spaces:
                cells = cfg.cells()
                acts += [('mv', u, (c,)) for u in us for c in (cells[0], cells[2], cells[-1]) if c != model.loc[u]]
            else:
                acts += [('moveto', u, r) for u in us for r in range(cfg.n) if r != model.rank[u]]
            acts += [('rm', u) for u in us]
            acts += [('req', r, u) for u in us for r in range(cfg.n) if r != model.rank[u] and (r, u) not in model.req]
        act = ch.choose(acts)
        if act[0] == 'proj':
            has.append(act[1])
            return ops, act
        if act[0] == 'req':
            return ops, ('request+sync', (act[1:],))
        if act[0] == 'moveto':
            return ops, ('moveto', (act[1:],))
        if act[0] in ('edge', 'upd'):
            act += ({'w': i},)
        return ops + [act], ('sync',)
    return gen


def full(cfg, rounds, na):
    return churn(cfg, rounds, na, True)


def churn(cfg, rounds, na, deep=False):
    def gen(model, ch, i):
        us = sorted(model.rank)
        if i == 0:
            return [('add', (a, 0, r), (2 * r + (r == 0 or a > 0), 0, 0) if cfg.spaces else None, 10 * r + a) for r, k in enumerate(na) for a in range(k)], ('sync',)
        if i > 2 + rounds or not us:
            return None
        ops = [('set', u, 1000 * i + u[0]) for u in us]
        spread = max(na) == sum(na)
        if i == 1 and not spread:
            return ops, ('request+sync', tuple((r, u) for u in us for r in range(cfg.n) if r != model.rank[u]) if not cfg.spaces else ())
        if i == 1:
            i = 2
        elif spread:
            i += 1
            if i > 2 + rounds:
                return None
        if i == 2:
            for net in cfg.nets[:1]:
                for a, u in enumerate(us):
                    for v in us[a + 1:]:
                        acts = [x for r in range(cfg.n) for x in acts_on(model, model, r, net, {}) if set(x[3:5]) == {u, v}]
                        act = ch.choose([None] + acts[:1] + acts[-1:] * (deep and len(acts) > 1))
                        if act:
                            ops.append(act + ({'w': 10 * a},))
            # known by nothing but the edges
            to = tuple((u, r) for u, r in ((u, ch.pick(cfg.n)) for u in us) if r != model.rank[u]) if spread else ()
            return ops, ('moveto', to) if to else ('sync',)
        sim = model.snapshot()
        pend = {}
        steps = [('rm',)] + [('net', k) for k in cfg.nets]
        if deep and ch.pick(2):
            steps.reverse()
        for step in steps:
            acts = [('rm', u) for u in us] if step[0] == 'rm' else [x for r in range(cfg.n) for x in acts_on(sim, model, r, step[1], pend)]
            act = ch.choose([None] + acts)
            if act:
                # edges may also be there for a moment, or be replaced
                both = act[0] in ('edge', 'cut') and (deep or len(cfg.nets) > 1) and (model.ekey(*act[2:5]) in sim.edges[act[2]]) == (act[0] == 'cut') and ch.pick(2)
                for k in (act[0], 'cut' if act[0] == 'edge' else 'edge')[:1 + bool(both)]:
                    x = (k,) + act[1:]
                    if k in ('edge', 'upd'):
                        x += ({'x': 100 * i},)
                    ops.append(x)
                    worlds.apply(sim, ([x], ('none',)))
        us = [u for u in us if u in sim.rank]
        if cfg.spaces:
            cells = cfg.cells()
            for u in us:
                c = ch.choose([None] + [c for c in (cells[0], cells[2], cells[-1]) if c != model.loc[u]])
                if c:
                    ops.append(('mv', u, (c,)))
            return ops, ch.choose((('sync',), ('moveto', ())) if not any(x[0] == 'mv' for x in ops) else (('sync',), ('nosync',)) if i == 2 + rounds else (('sync',),))
        to = tuple((u, r) for u, r in ((u, ch.pick(cfg.n)) for u in us) if r != model.rank[u])
        return ops, ('moveto', to) if to or ch.pick(2) else ('sync',)

    def ends(model, ch, i):
        # what was left for the last synchronization is done by it
        if i == (2 if max(na) == sum(na) else 3) + rounds:
            return [('set', u, 1000 * i + u[0]) for u in sorted(model.rank)], ('sync',)
        return gen(model, ch, i)
    return ends


def run(params, ch):
    if params[0] == 'wide':
        return worlds.run_wide(params, ch)
    cfg, rounds, nops, na, what = params
    if what in ('multi', 'late', 'churn', 'full'):
        worlds.run_script(cfg, ch, {'multi': multi, 'late': late, 'churn': churn, 'full': full}[what](cfg, rounds, na))
        return

    def gen(model, ch, i):
        if i > rounds + 1:
            return None
        if i == 0:
            ops = []
            for r, k in enumerate(na):
                ops += [('add', (a, 0, r), (2 * r + (r == 0 or a > 0), 0, 0) if cfg.spaces else None, 10 * r + a) for a in range(k)]
            return ops, ('sync',)
        us = sorted(model.rank)
        if not us:
            return None
        if cfg.spaces:
            i += 1
            if i > rounds + 1:
                return None
        if i == 1:
            # requests in both directions, one or none
            pairs = [(r, u) for u in us for r in range(cfg.n) if r != model.rank[u]]
            return [], ('request+sync', tuple(ch.choose((pairs, [p for p in pairs if p[0] == 0], [p for p in pairs if p[0] != 0]))))
        ops = []
        coll = ('sync',)
        pend = {}
        snap = model.snapshot()
        sim = model.snapshot()
        for j in range(nops if isinstance(nops, int) else nops[i - 2]):
            acts = []
            for net in cfg.nets:
                for r in range(cfg.n):
                    acts += acts_on(sim, snap, r, net, pend, 'l' in what)
                    if 'c' in what and not ops and any(r in (sim.rank[e[0]], sim.rank[e[1]]) for e in sim.edges[net]):
                        acts.append(('clear', r, net))
            if not ops or cfg.spaces:
                if 'm' in what and cfg.spaces:
                    # apart, by one or by more
                    cells = cfg.cells()
                    acts += [('mv', u, (c,)) for u in us if u in sim.rank for c in (cells[0], cells[2], cells[-1]) if c != sim.loc[u]]
                elif 'm' in what:
                    acts += [('moveto', u, r) for u in us for r in range(cfg.n) if r != model.rank[u]]
                if 'r' in what:
                    acts += [('rm', u) for u in us if u in sim.rank]
            elif j:
                acts.append(None)
            if 'R' in what:
                acts += [('rm', u) for u in us if u in sim.rank]
            if not acts:
                break
            act = ch.choose(acts)
            if act is None:
                break
            if act[0] == 'moveto':
                coll = ('moveto', ((act[1], act[2]),))
                break
            if act[0] == 'mv':
                ops.append(act)
                worlds.apply(sim, ([act], ('none',)))
                continue
            if act[0] == 'rm':
                ops.append(act)
                if 'r' in what and not cfg.spaces:
                    break
                worlds.apply(sim, ([act], ('none',)))
                continue
            if act[0] in ('edge', 'upd'):
                act += ({('w' if act[0] == 'edge' else 'x'): 100 * i + j},)
            worlds.apply(sim, ([act], ('none',)))
            if act[0] != 'clear':
                pend[sim.ekey(act[2], act[3], act[4])] = act[1]
            ops.append(act)
            if act[0] == 'clear':
                break
        ops = [('set', u, 1000 * i + u[0]) for u in us] + ops
        return ops, coll
    worlds.run_script(cfg, ch, gen)


ASSUMPTIONS = ('two ranks do not update, add or remove the same edge between the same two synchronizations, as the outcome of that is not specified; '
               'edges have at least one local agent; up to four agents on up to four ranks')
