"""Within-rank event ordering of the schedule: every event exactly when and
how often it is due, in the documented order."""
import itertools
import math

from ..common import EnumRng, enumerate_all, run_world
from ..engine import Violation
from .. import loader

ID = 'C01'
F, L, R, P1, P2 = 'FIRST', 'LAST', 'RANDOM', 'P1', 'P2'
KINDS = [F, R, P2, P1, L]
STOP = 4


class Ref:
    """Reference: the set of pending events and what may run next."""

    def __init__(self):
        self.pending = {}       # id -> [tick, kind, interval]
        self.seq = itertools.count()
        self.now = -1
        self.log = []

    def add(self, tick, kind, interval):
        i = next(self.seq)
        if tick >= max(self.now, 0):   # 0 is the first valid tick
            self.pending[i] = [tick, kind, interval]
        return i

    def allowed(self):
        """ids which may execute next"""
        if not self.pending:
            return set()
        t = min(e[0] for e in self.pending.values())
        at = {i: e for i, e in self.pending.items() if e[0] == t}
        first = [i for i, e in at.items() if e[1] == F]
        if first:
            return {min(first)}
        mid = [(e[1], i) for i, e in at.items() if e[1] in (R, P1, P2)]
        if mid:
            pr = [k for k, _ in mid if k != R]
            best = min(pr) if pr else None
            return {i for k, i in mid if k == R or k == best}
        return {min(i for i, e in at.items() if e[1] == L)}

    def execute(self, i, tick):
        if i not in self.pending:
            raise Violation('event %d executes at tick %s but is not pending (already executed, voided or in the past); '
                            'executed so far: %s' % (i, tick, self.log))
        e = self.pending[i]
        if e[0] != tick:
            raise Violation('event %d, due at tick %s, executes at tick %s; executed so far: %s' % (i, e[0], tick, self.log))
        ok = self.allowed()
        if i not in ok:
            raise Violation('event %d (%s) executes at tick %s before %s; pending: %s; executed so far: %s' % (
                i, e[1], tick, sorted(ok), self.pending, self.log))
        self.now = tick
        if e[2] is None:
            del self.pending[i]
        self.log.append((tick, i))

    def reschedule(self, i):
        e = self.pending.get(i)
        if e is not None:
            e[0] += e[2]


def _sched(m, runner, ref, handles, tick, kind, interval, action):
    i = ref.add(tick, kind, interval)
    pt = m.schedule.PriorityType
    kw = {}
    if kind in (P1, P2):
        kw = dict(priority_type=pt.BY_PRIORITY, priority=1 if kind == P1 else 2)
    elif kind != R or i % 2:        # RANDOM is also the default
        kw = dict(priority_type=getattr(pt, kind))
        if kind in (F, L, R) and i % 3 == 0:
            kw['priority'] = 3 - i   # documented to be ignored

    def evt():
        ref.execute(i, runner.tick() if callable(getattr(runner, 'tick')) else runner.tick)
        _act(m, runner, ref, handles, action, i)
        if interval is not None:
            ref.reschedule(i)
    if interval is None:
        handles[i] = runner.schedule_event(tick, evt, **kw)
    else:
        handles[i] = runner.schedule_repeating_event(tick, interval, evt, **kw)
    return i


def _act(m, runner, ref, handles, action, me):
    if action is None:
        return
    if action[0] == 'add':
        _, dt, kind, interval, sub = action
        _sched(m, runner, ref, handles, ref.now + dt, kind, interval, sub)
    elif action[0] == 'add2':
        for a in action[1:]:
            _act(m, runner, ref, handles, a, me)
    elif action[0] == 'void':
        j = action[1]
        if j in handles:
            handles[j].void()
            ref.pending.pop(j, None)


def _prog(m, rank, comm, evts, ch, orders, stop):
    rng = EnumRng(ch)
    m.random.default_rng = rng
    runner = m.schedule.SharedScheduleRunner(comm)
    ref = Ref()
    handles = {}
    for (tick, kind, interval, action) in evts:
        _sched(m, runner, ref, handles, tick, kind, interval, action)
    ended = []
    runner.schedule_end_event(lambda: ended.append(1))
    runner.schedule_stop(stop)
    runner.execute()
    left = {i: e for i, e in ref.pending.items() if e[0] <= stop}
    if left:
        raise Violation('events due by the stop tick %s never executed: %s; executed: %s' % (stop, left, ref.log))
    late = [x for x in ref.log if x[0] > stop]
    if late:
        raise Violation('events executed after the stop tick %s: %s' % (stop, late))
    if ended != [1]:
        raise Violation('end event executed %d times' % len(ended))
    orders.add(tuple(ref.log))
    return rng.sampled


def _all_orders(evts, stop):
    """Every order the documentation allows, for events without actions."""
    out = set()

    def rec(ref):
        ok = {i for i in ref.allowed() if ref.pending[i][0] <= stop}
        if not ok:
            out.add(tuple(ref.log))
            return
        for i in ok:
            r = Ref()
            r.pending = {k: list(v) for k, v in ref.pending.items()}
            r.now, r.log = ref.now, list(ref.log)
            tick = r.pending[i][0]
            r.execute(i, tick)
            r.reschedule(i)
            rec(r)
    r = Ref()
    for (tick, kind, interval, action) in evts:
        r.add(tick, kind, interval)
    rec(r)
    return out


def _check(evts, ch, stop=STOP, coverage=True):
    orders = set()
    sampled = [False]

    def one(c):
        res, w = run_world(1, _prog, evts, c, orders, stop)
        sampled[0] = sampled[0] or res[0]
        ch.step(1)
    n = enumerate_all(one)
    ch.note(rng_outcomes=n, distinct_orders=len(orders))
    ch.state((evts, sorted(orders)))
    if coverage and not sampled[0]:
        # ties between equal priorities may go either way
        def canon(o):
            return tuple((t, evts[i][1] if evts[i][1] in (P1, P2) else i) for t, i in o)
        want = {canon(o) for o in _all_orders(evts, stop)}
        orders = {canon(o) for o in orders}
        if not orders <= want:
            raise Violation('orders not allowed: %s' % sorted(orders - want)[:3])
        if orders != want:
            raise Violation('some orders the RANDOM priority allows cannot occur for %s: missing e.g. %s (reachable: %d of %d)' % (
                evts, sorted(want - orders)[0], len(orders), len(want)))


class PolicyRng(EnumRng):
    """draws by a fixed rule"""

    def __init__(self, rule):
        super().__init__(self, max_fan=1000)
        self.rule, self.k = rule, 0

    def pick(self, n):
        self.k += 1
        return (0, n - 1, n // 2, self.k * 7 % n)[self.rule]


def _wide(m, rank, comm, n, p, q, rule, log):
    """many events, some that add or void others, by formulas"""
    m.random.default_rng = PolicyRng(rule)
    runner = m.schedule.SharedScheduleRunner(comm)
    ref = Ref()
    handles = {}
    for i in range(n):
        action = None
        if i % 7 == p % 7:
            action = ('add', (0, 1, 0.5)[i % 3], KINDS[(i + q) % 5], None, ('add', 1, KINDS[i % 5], None, None))
        elif i % 7 == q:
            action = ('void', (i * p + 11) % n)
        iv = (None, None, None, 1, 2.5)[(i * q + i // 4) % 5]
        _sched(m, runner, ref, handles, (i * p) % 9 / (1 + i % 2), KINDS[(i * (q + 1) + i // 5) % 5], iv, action)
    stop = 12
    ended = []
    runner.schedule_end_event(lambda: ended.append(1))
    runner.schedule_stop(stop)
    runner.execute()
    left = {i: e for i, e in ref.pending.items() if e[0] <= stop}
    if left:
        raise Violation('events due by the stop tick %s never executed: %s' % (stop, left))
    late = [x for x in ref.log if x[0] > stop]
    if late or ended != [1]:
        raise Violation('events executed after the stop tick %s: %s, end events %s' % (stop, late, ended))
    log.append(tuple(ref.log))


def _direct(m, rank, comm, script, ch, orders):
    """The Schedule class itself, one tick per execute(), events added between
    ticks."""
    m.random.default_rng = EnumRng(ch)
    s = m.schedule.Schedule()
    ref = Ref()
    handles = {}
    for step in script:
        if step is None:
            nt = s.next_tick()
            want = min((e[0] for e in ref.pending.values()), default=-1)
            if nt != want:
                raise Violation('next_tick is %s, the earliest pending event is at %s: %s' % (nt, want, script))
            before = {i for i, e in ref.pending.items() if e[0] == want}
            s.execute()
            left = {i for i, e in ref.pending.items() if e[0] == want}
            if left:
                raise Violation('events due at tick %s did not execute: %s; %s' % (want, left, script))
        else:
            dt, kind, interval = step
            _sched(m, s, ref, handles, (0 if ref.now < 0 else ref.now) + dt, kind, interval, None)
    orders.add(tuple(ref.log))


def items(tier):
    deep = tier == 'thorough'
    out = [('plain3', ('plain', 3)), ('plain4same', ('plainsame', 5 if deep else 4)),
           ('add', ('add', 4 if deep else 3)), ('chain', ('chain', 2)), ('void', ('void', 4 if deep else 3)),
           ('between', ('between', 6 if deep else 5)), ('intervals', ('intervals',)), ('close', ('close',)),
           ('wide', ('wide', 60)), ('wide200', ('wide', 200))]
    if deep:
        out.append(('plain4', ('plain', 4)))
    return out


ADDS = [('add', 0, k, None, None) for k in KINDS] + [('add', 1, k, None, None) for k in (F, P1, L)] + \
    [('add', -1, R, None, None), ('add', 0, R, 1, None), ('add', 0, F, 1, None), ('add', 0.5, R, None, None),
     ('add', -0.5, F, None, None)]


def run(params, ch):
    fam = params[0]
    if fam == 'wide':
        p, q, rule, log = 1 + ch.pick(8), ch.pick(4), ch.pick(4), []
        run_world(1, _wide, params[1], p, q, rule, log)
        ch.step(len(log[0]))
        ch.state((params, log))
        return
    if fam == 'plain':
        evts = tuple((ch.choose((1, 2)), ch.choose(KINDS), ch.choose((None, 1)), None) for _ in range(params[1]))
        if sum(e[2] is not None and e[1] == R for e in evts) > 1:
            _check(evts, ch, stop=2)
        else:
            _check(evts, ch, stop=3)
    elif fam == 'plainsame':
        evts = tuple((1, ch.choose(KINDS), None, None) for _ in range(params[1]))
        _check(evts, ch)
    elif fam == 'add':
        n = params[1]
        kinds = [ch.choose(KINDS) for _ in range(n)]
        a = ch.pick(n)
        act = ch.choose(ADDS)
        rep = ch.choose((None, 1))
        evts = tuple((1, k, rep if i == a else None, act if i == a else None) for i, k in enumerate(kinds))
        _check(evts, ch, stop=2, coverage=False)
    elif fam == 'chain':
        # an added event adds another one; or one event adds two; or two adders
        kinds = [ch.choose(KINDS) for _ in range(3)]
        shape = ch.pick(3)
        k1, k2 = ch.choose(KINDS), ch.choose(KINDS)
        if shape == 0:
            acts = [('add', 0, k1, None, ('add', 0, k2, None, None)), None, None]
        elif shape == 1:
            acts = [('add2', ('add', 0, k1, None, None), ('add', 0, k2, None, None)), None, None]
        else:
            acts = [('add', 0, k1, None, None), ('add', 0, k2, None, None), None]
        evts = tuple((1, k, None, a) for k, a in zip(kinds, acts))
        _check(evts, ch, stop=1, coverage=False)
    elif fam == 'void':
        n = params[1]
        kinds = [ch.choose(KINDS) for _ in range(n)]
        voider, voided = ch.pick(n), ch.pick(n)
        rep = ch.choose((None, 1))
        vt = ch.choose((1, 2))
        evts = tuple((vt if i == voided and i != voider else 1, k, rep if i == voided else None,
                      ('void', voided) if i == voider else None) for i, k in enumerate(kinds))
        _check(evts, ch, stop=3, coverage=False)
    elif fam == 'between':
        script = []
        for _ in range(params[1]):
            o = ch.pick(5)
            script.append((None, (0, R, None), (1, F, None), (-1, R, None), (0, L, 1))[o])
        script.append(None)
        orders = set()

        def one(c):
            run_world(1, _direct, script, c, orders)
            ch.step(1)
        enumerate_all(one)
        ch.state((tuple(script), sorted(orders)))
    elif fam == 'intervals':
        iv = ch.choose((0.25, 0.5, 1, 1.5, 3))
        iv2 = ch.choose((0.25, 0.5, 1, 1.5, 3))
        st = ch.choose((0, 0.5, 1))
        st2 = ch.choose((0, 0.5, 1))
        k1, k2 = ch.choose((F, P1, L)), ch.choose((F, P2, L))
        stop = ch.choose((2, 3.5))
        _check(((st, k1, iv, None), (st2, k2, iv2, None)), ch, stop=stop)
    elif fam == 'close':
        # ticks that are nearly equal (0.30000000000000004 and 0.3, thirds)
        # or very large are different ticks nevertheless
        iv = ch.choose((0.1, 1 / 3, 0.7, 1e-7))
        base = ch.choose((0, 1e6))
        n = ch.choose((2, 3, 6))
        at = base + iv * n if ch.pick(2) else base
        if at == base:
            at = base + iv
            for _ in range(n - 1):
                at += iv
            at = ch.choose((at, math.nextafter(at, 0), math.nextafter(at, 1e9)))
        k1, k2 = ch.choose((F, P1, L)), ch.choose((F, P2, L))
        _check(((base + iv, k1, iv, None), (at, k2, ch.choose((None, iv)), None)), ch, stop=base + 8 * iv, coverage=False)
