"""Cross-rank lockstep of the shared schedule, termination and end events."""
from ..common import EnumRng, run_world
from ..engine import Violation

ID = 'C02'

# a rank's events: (tick, interval, action); action: None, ('add', dt) (schedules
# an event dt after the current tick when it executes)
PROGS = [
    (),
    ((1, None, None),),
    ((0, 1, None),),
    ((2, None, None), (1, None, None)),
    ((0.5, 1, None),),
    ((1, None, ('add', 0)),),
    ((1, None, ('add', 1)),),
    ((0, None, ('add', 0.25)), (2, None, None)),
    ((1, 0.5, None), (3, None, None)),
    ((1, None, ('void', 1)), (1.5, 0.5, None)),
]


def _prog(m, rank, comm, progs, stop, glog, calls_stop, ch):
    m.random.default_rng = EnumRng(ch if len(progs[rank]) < 10 else Last(), max_fan=1)
    runner = m.schedule.init_schedule_runner(comm)
    if m.schedule.runner() is not runner:
        raise Violation('runner() is not the initialised runner')
    handles = {}
    pend = {}           # this rank's pending events: name -> tick

    def sched(name, tick, interval, action):
        if tick >= runner.tick():
            pend[name] = tick

        def evt():
            t = runner.tick()
            if name not in pend or pend[name] != t:
                raise Violation('rank %d: event %s executed at %s, pending: %s' % (rank, name, t, pend))
            glog.append((rank, t, name))
            if action and action[0] == 'add':
                sched(name + '+', t + action[1], None, None)
            elif action and action[0] == 'void':
                handles['e%d' % action[1]].void()
                pend.pop('e%d' % action[1], None)
            if interval is None:
                del pend[name]
            elif name in pend:
                pend[name] += interval
        if interval is None:
            handles[name] = runner.schedule_event(tick, evt)
        else:
            handles[name] = runner.schedule_repeating_event(tick, interval, evt)
    if calls_stop == 0 and stop is not None:
        runner.schedule_stop(stop)
    for i, (tick, interval, action) in enumerate(progs[rank]):
        sched('e%d' % i, tick, interval, action)
    if calls_stop == 1 and stop is not None:
        runner.schedule_stop(stop)
    elif calls_stop == 2 and stop is not None:
        runner.schedule_event(stop, runner.stop)
    ends = []
    runner.schedule_end_event(lambda: ends.append('a'))
    runner.schedule_end_event(lambda: ends.append('b'))
    runner.execute()
    glog.append((rank, 'end', None))
    return ends, dict(pend), runner.tick()


def items(tier):
    deep = tier == 'thorough'
    out = [('n1', (1, len(PROGS), True)), ('n2', (2, len(PROGS), True)),
           ('n3', (3, 8 if deep else 5, True)), ('n4', (4, 6 if deep else 4, deep))]
    if deep:
        out.append(('n3all', (3, len(PROGS), False)))
    for n in (2, 5, 9):
        out.append(('wide-n%d' % n, (n, 40, False)))
    return out


class Last:
    def pick(self, n):
        return n - 1


def many(n, k, p, q):
    """k events on each of n ranks, or none on some, by formulas"""
    out = []
    for r in range(n):
        out.append(tuple((((i * p + r * (q + 1)) % 24) / 4, (None, None, None, 1.25, 2)[(i + r * p) % 5], ('add', ((i + q) % 5) / 4) if i % 4 == q else None)
                         for i in range(k)) if (r + p) % 4 != q else ())
    return out


def run(params, ch):
    n, np_, interleave = params
    progs = many(n, np_, 1 + ch.pick(6), ch.pick(4)) if np_ > len(PROGS) else [ch.choose(PROGS[:np_]) for _ in range(n)]
    endless = any(e[1] is not None for p in progs for e in p) and not all(_finite(p) for p in progs)
    stop = ch.choose((2, 1.75, 3) if endless else (2, 1.75, 3, None))
    calls = ch.pick(3) if stop is not None and n < 4 else 0
    glog = []
    # the order in which ranks continue after each exchange
    budget = [6 if n == 2 else 3]

    def pick(run_):
        if budget[0] <= 0:
            return 0
        budget[0] -= 1
        return ch.pick(len(run_))
    res, w = run_world(n, _prog, progs, stop, glog, calls, ch, pick=pick if interleave and n > 1 else None, max_ops=2000)
    ch.step(len(glog))
    ch.state((progs, stop, tuple(sorted(glog, key=repr))))
    last = -1
    ended = set()
    seen = {}
    for i, (r, t, name) in enumerate(glog):
        if t == 'end':
            ended.add(r)
            continue
        if r in ended:
            raise Violation('rank %d executes %s at %s after its schedule ended: %s' % (r, name, t, glog))
        if t < last:
            raise Violation('rank %d executes an event at tick %s after an event at tick %s executed: %s' % (r, t, last, glog))
        last = t
        if stop is not None and t > stop:
            raise Violation('rank %d executes %s at tick %s, after the stop tick %s' % (r, name, t, stop))
    for r, (ends, pend, tick) in enumerate(res):
        if ends != ['a', 'b']:
            raise Violation('rank %d: end events executed: %s' % (r, ends))
        due = {k: v for k, v in pend.items() if stop is None or v <= stop}
        if due:
            raise Violation('rank %d never executed %s (stop tick %s); log: %s' % (r, due, stop, glog))
    # exact event counts by closed form
    for r, p in enumerate(progs):
        got = sorted((t, nme) for rr, t, nme in glog if rr == r and t != 'end')
        want = sorted(_expected(p, stop))
        if got != want:
            raise Violation('rank %d executed %s, expected %s' % (r, got, want))


def _finite(p):
    return all(e[1] is None for e in p) or (p and p[0][2] and p[0][2][0] == 'void')


def _expected(p, stop):
    out = []
    s = stop if stop is not None else 10 ** 6
    voided = {a[1]: t for t, _, a in p if a and a[0] == 'void'}
    for i, (t, iv, a) in enumerate(p):
        name = 'e%d' % i
        while t <= s and not (i in voided and t >= voided[i]):
            out.append((t, name))
            if a and a[0] == 'add' and t + a[1] <= s:
                out.append((t + a[1], name + '+'))
            if iv is None:
                break
            t += iv
    return out
