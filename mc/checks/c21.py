"""What a query has returned stays valid: the agents found when it was made,
whatever is done to them and the space while they are looked at."""
import gc
import sys
import weakref

from ..common import run_world
from ..engine import Violation
from .. import worlds
from ..worlds import Cfg
from . import c05, c06
from .c09 import make

ID = 'C21'
ASSUMPTIONS = ('the memory of freed objects is overwritten (debug allocators), so that its use shows',)


def items(tier):
    deep = tier == 'thorough'
    out = []
    for kind in ('grid', 'cspace', 'sgrid', 'scspace'):
        for occ in (0, 1):
            for q in ('at', 'within') if kind[-5:] == 'space' else ('at',):
                if occ and q == 'at' and not deep and kind[0] != 's':
                    continue
                out.append(('iterate-%s-%s-%s' % (kind, 'single' if occ else 'multi', q), ('iterate', kind, occ, q, 4 if deep else 3)))
        out.append(('hold-%s' % kind, ('hold', kind, 4 if deep else 3)))
        for occ in (0, 1):
            out.append(('life-%s-%d' % (kind, occ), ('life', kind, occ, 6 if deep else 5)))
            if kind in ('grid', 'cspace'):
                out.append(('gone-%s-%d' % (kind, occ), ('gone', kind, occ, 4 if deep else 3)))
        out.append(('growth-%s' % kind, ('growth', kind, 1, 4 if deep else 3)))
        if kind[:2] in ('sg', 'sc'):
            out.append(('growth-%s-out' % kind, ('growth', kind, 2, 4 if deep else 3)))
    # the histories of C05 and C06 with new objects for the agents of other ranks
    some = {c05: ('n2-b1-none-new', 'n2-b1-g-new', 'n2-b1-c-new', 'n3-b1-g-new'),
            c06: ('move-em-n2-11-u-new', 'move-em-n3-110-d', 'remove-er-n2-21', 'multi-u-n2-21-none', 'multi-d-n2-21-c')}
    for c, names in some.items():
        for n, p in c.items(tier):
            if (deep or n.startswith(names)) and 'new' in n and (not deep or 'n4' not in n):
                out.append(('release-%s-%s' % (c.ID, n), ('release', c.ID, p)))
    out += worlds.wide_items(('', 'g', 'gcud'), more=deep)
    return out


def prepare(tier):
    worlds.tracking = True


def _agent(m):
    class A(m.core.Agent):
        def __init__(self, i):
            super().__init__(i, 0, 0)
            self.tag = [i]
    return A


def _iterate(m, rank, comm, kind, occ, q, depth, ch):
    grid = kind in ('grid', 'sgrid')
    P = m.space.DiscretePoint if grid else m.space.ContinuousPoint
    sp = make(m, comm, kind, 2, 0, occ)
    A = _agent(m)
    n = 3
    # all together, or in a row; one elsewhere
    x = [(0, 1), (0, 1), (0, 1)] if not occ else [(0, 1), (1, 1), (1, 2)]
    live = {i: A(i) for i in range(n)}
    for i, a in live.items():
        sp.add(a)
        sp.move(a, P(*x[i]))
    home = [P(-2, 1), P(-1, 1), P(0, 1), P(1, 3)]
    if q == 'at':
        it = sp.get_agents(P(*x[0]))
        want = [0] if occ else [0, 1, 2]
    else:
        it = sp.get_agents_within(m.geometry.BoundingBox(-2, 4, 1, 2, 0, 0))
        want = None
    ref = sp.get_agents_within(m.geometry.BoundingBox(-2, 4, 1, 2, 0, 0)) if q == 'within' else sp.get_agents(P(*x[0]))
    first = [a.uid[0] for a in ref]
    if want is None:
        if sorted(first) != [0, 1, 2]:
            raise Violation('within finds %s' % first)
        want = first
    elif first != want:
        raise Violation('at the location: %s, expected %s' % (first, want))
    del ref
    got, log = [], []
    dropped, left = 0, depth
    a = None
    early = ch.pick(2)
    while True:
        if early or got:
            # things happen before the first one is looked at, or after each
            while left:
                # an agent put where the query was
                ops = [('none',)] + [(o, i) for i in sorted(live) for o in ('remove', 'drop')] + [('move', i, k) for i in sorted(live) for k in ((0, 2) if not occ else (0,))] + [('new',)]
                op = ch.choose(ops)
                left -= op[0] != 'none'
                log.append((len(got),) + op)
                if op[0] == 'none':
                    break
                if op[0] == 'new':
                    dropped += 1
                    b = live[10 + dropped] = A(10 + dropped)
                    sp.add(b)
                    sp.move(b, P(0, 1) if not occ else P(-1, 2))
                    del b
                elif op[0] == 'move':
                    sp.add(live[op[1]])
                    sp.move(live[op[1]], home[op[2]])
                else:
                    sp.remove(live[op[1]])
                    if op[0] == 'drop':
                        # nobody refers to it any more, but whoever iterates
                        del live[op[1]]
        try:
            a = None
            a = next(it)
        except StopIteration:
            break
        if type(a) is not A or a.tag != [a.id]:
            raise Violation('the iterator gives %r after %s' % (a, log))
        got.append(a.uid[0])
        early = 1
        if len(got) > len(want):
            break
        ch.step()
        ch.state((kind, ch.trace))
    if got != want:
        raise Violation('%s: iterating gives agents %s, found were %s: %s' % (kind, got, want, log))
    # the iterator may be used again; whether for what was found or what is there now is left open
    again = [(b.uid[0], b.tag) for b in it]
    now = [b.uid[0] for b in sp.get_agents(P(*x[0]))] if q == 'at' else want
    if [t for _, t in again] != [[i] for i, _ in again] or [i for i, _ in again] not in (want, now, []):
        raise Violation('%s: iterating again gives agents %s, found were %s, there are %s: %s' % (kind, again, want, now, log))


def _hold(m, rank, comm, kind, depth, ch):
    """results held while the agents and even the space go away"""
    grid = kind in ('grid', 'sgrid')
    P = m.space.DiscretePoint if grid else m.space.ContinuousPoint
    sp = make(m, comm, kind, 2, 0, 0)
    A = _agent(m)
    live = {i: A(i) for i in range(2)}
    for a in live.values():
        sp.add(a)
        sp.move(a, P(0, 1))
    del a
    held = []
    log = []
    for _ in range(depth):
        op = ch.choose(('query', 'agent', 'location', 'within', 'drop', 'move', 'space'))
        log.append(op)
        if op == 'space':
            sp = None
            break
        if op == 'query':
            # what is iterated later is what is there then, in the space or the iterator
            it = sp.get_agents(P(0, 1))
            next(it, None)
            held.append((it, [a.uid[0] for a in sp.get_agents(P(0, 1))][1:]))
            del it
        elif op == 'agent':
            a = sp.get_agent(P(0, 1))
            if a is not None:
                held.append(([a], [a.uid[0]]))
            del a
        elif op == 'within' and not grid:
            b = m.geometry.BoundingBox(-1, 2, 0, 2, 0, 0)
            held.append((sp.get_agents_within(b), [a.uid[0] for a in sp.get_agents_within(b)]))
        elif op == 'location' and live:
            p = sp.get_location(live[max(live)])
            if p is not None:
                held.append((p, None))
        elif op == 'drop' and live:
            sp.remove(live.pop(max(live)))
        elif op == 'move' and live:
            sp.move(live[min(live)], P(1, 2))
    live.clear()
    sp = None
    junk = [A(100 + i) for i in range(5)]
    for h, want in held:
        if want is None:
            if (h.x, h.y, h.z) not in ((0, 1, 0), (1, 2, 0)):
                raise Violation('a location has become %s after %s' % (h, log))
            continue
        it = h
        h = list(iter(h.__next__, None)) if hasattr(h, '__next__') else h
        got = [a.uid[0] for a in h]
        if got != want or any(a.tag != [a.id] for a in h):
            raise Violation('%s: agents %s held are now %s: %s' % (kind, want, got, log))
        if it is not h and [a.tag for a in it] != [[a.id] for a in it]:
            raise Violation('%s: the iterator gives %s: %s' % (kind, [a for a in it], log))
    del junk
    ch.step()
    ch.state((kind, ch.trace))


def _life(m, rank, comm, kind, occ, depth, ch):
    """agents are kept by whoever refers to them, the space included, and by nobody else"""
    grid = kind in ('grid', 'sgrid')
    P = m.space.DiscretePoint if grid else m.space.ContinuousPoint
    sp = make(m, comm, kind, 2, 0, occ)
    A = _agent(m)
    live = {i: A(i) for i in range(2)}
    weak = {i: weakref.ref(a) for i, a in live.items()}
    base = {i: sys.getrefcount(a) for i, a in live.items()}
    at = {}     # agents in the space and where
    log = []

    def kept(i):
        return i in live or i in at

    for _ in range(depth):
        ops = [('stop',)] if log else []
        for i in sorted(live):
            ops.append(('add', i))
            if i in at:
                ops += [('move', i, 0), ('move', i, 1), ('forget', i)]
            ops.append(('remove', i))
        for i in sorted(set(at) - set(live)):
            if at[i] is not None:
                ops.append(('find', i))
        if not ops:
            break
        op = ch.choose(ops)
        log.append(op)
        if op[0] == 'stop':
            break
        i = op[1]
        if op[0] == 'add':
            sp.add(live[i])
            at.setdefault(i, None)
        elif op[0] == 'move':
            if sp.move(live[i], P(op[2], 1)) is not None:
                at[i] = op[2]
        elif op[0] == 'remove':
            sp.remove(live[i])
            at.pop(i, None)
        elif op[0] == 'forget':
            del live[i]
        else:
            a = [a for a in sp.get_agents(P(at[i], 1)) if a.id == i]
            if len(a) != 1 or a[0] is not weak[i]() or a[0].tag != [i]:
                raise Violation('%s: agent %s, found in the space, is %s: %s' % (kind, i, a, log))
            live[i] = a.pop()
            del a
        for i, w in weak.items():
            if (w() is not None) != kept(i):
                raise Violation('%s: agent %s %s exists: %s' % (kind, i, 'still' if not kept(i) else 'no longer', log))
        ch.step()
        ch.state((kind, occ, tuple(sorted(at.items())), tuple(sorted(live))))
    sp = None
    gc.collect()
    for i, w in weak.items():
        if (w() is not None) != (i in live):
            raise Violation('%s: agent %s %s exists after its space: %s' % (kind, i, 'still' if i not in live else 'no longer', log))
    for i, a in live.items():
        if sys.getrefcount(a) != base[i]:
            raise Violation('%s: %+d references to agent %s remain: %s' % (kind, sys.getrefcount(a) - base[i], i, log))


GROWTH = 24


def _growth(m, rank, comm, kind, nr, depth, ch):
    """whatever is done, nothing remains of it once the agents are gone"""
    if rank:
        make(m, comm, kind, 2, 0, 0, buffer=1)
        return
    grid = kind in ('grid', 'sgrid')
    P = m.space.DiscretePoint if grid else m.space.ContinuousPoint
    sp = make(m, comm, kind, 2, 0, 0, buffer=1 if nr > 1 else 0)
    A = _agent(m)
    BB = m.geometry.BoundingBox
    menu = {
        'near': lambda a: sp.move(a, P(-2, 1)), 'far': lambda a: sp.move(a, P(2, 3)), 'beyond': lambda a: sp.move(a, P(99, 0)),
        'at': lambda a: list(sp.get_agents(P(-2, 1))), 'next': lambda a: next(sp.get_agents(P(-2, 1)), None),
        'one': lambda a: sp.get_agent(P(2, 3)), 'where': lambda a: sp.get_location(a), 'coordinates': lambda a: sp.get_location(a).coordinates if sp.get_location(a) else 0,
        'again': lambda a: sp.add(a), 'other': lambda a: sp.add(A(7)), 'out': lambda a: sp.remove(a), 'contains': lambda a: sp.contains(a),
        'error': lambda a: sp.move(3, P(0, 0)), 'nowhere': lambda a: sp.move(A(8), P(0, 0)), 'uid': lambda a: (a.uid, a.id, a.type, a.local_rank)}
    if grid and nr == 1:
        menu['kind'] = lambda a: sp.move(a, 3)
    if not grid:
        menu['within'] = lambda a: list(sp.get_agents_within(BB(-2, 4, 1, 2, 0, 0)))
    if nr > 1:
        menu['outside'] = lambda a: [x for x in sp._get_oob()]
        menu['clear'] = lambda a: sp._clear_oob()
    names = ['near'] + [ch.choose(sorted(menu)) for _ in range(depth)]

    def go(own=True):
        s = sp
        a, b = A(1), A(2)
        s.add(a)
        s.add(b)
        s.move(b, P(-2, 1))
        for k in names:
            try:
                menu[k](a)
            except (ValueError, TypeError, AttributeError, RuntimeError):
                pass
        s.remove(a)
        s.remove(b)
        s.remove(A(7))

    for _ in range(3):
        go()
    gc.collect()
    before = sys.getallocatedblocks()
    for _ in range(GROWTH):
        go()
    gc.collect()
    d = sys.getallocatedblocks() - before
    if d >= GROWTH // 2:
        raise Violation('%s: %s objects remain each time of %s' % (kind, round(d / GROWTH, 1), names))
    ch.step()
    ch.state((kind, ch.trace))


def _gone(m, rank, comm, kind, occ, depth, ch):
    """spaces with agents"""
    grid = kind == 'grid'
    P = m.space.DiscretePoint if grid else m.space.ContinuousPoint
    A = _agent(m)
    todo = [(ch.pick(6), ch.choose(((0, 1), (-2, 1), (1, 3), None))) for _ in range(depth)]

    def go():
        sp = make(m, comm, kind, 2, 0, occ)
        ags = [A(i) for i in range(6)]
        for i, x in todo:
            sp.add(ags[i])
            if x is not None:
                sp.move(ags[i], P(*x))

    for _ in range(3):
        go()
    gc.collect()
    before = sys.getallocatedblocks()
    for _ in range(GROWTH):
        go()
    gc.collect()
    d = sys.getallocatedblocks() - before
    if d >= GROWTH // 2:
        raise Violation('%s: %s objects remain of each space: %s' % (kind, round(d / GROWTH, 1), todo))
    ch.step()
    ch.state((kind, ch.trace))


def run(params, ch):
    if params[0] == 'wide':
        params[1].restore = 'new'
        worlds.run_wide(params, ch)
        return
    if params[0] == 'release':
        {'C05': c05, 'C06': c06}[params[1]].run(params[2], ch)
        return
    # only what the execution makes is looked at by the collector
    gc.freeze()
    try:
        _run(params, ch)
    finally:
        gc.unfreeze()


def _run(params, ch):
    if params[0] == 'growth':
        run_world(params[2], _growth, *params[1:], ch)
        return
    run_world(1, {'iterate': _iterate, 'hold': _hold, 'life': _life, 'gone': _gone}[params[0]], *params[1:], ch)
