"""A simulation restored from a checkpoint continues as the one that saved it:
pending events, tick, order, random state."""
import pickle
import warnings

import dill

from ..common import EnumRng, run_world
from ..engine import Violation
from .. import loader
from .c01 import F, KINDS, L, P1, P2, R, Ref

ID = 'C15'
STOP = 3
ASSUMPTIONS = ['a checkpoint taken while events of the same tick are still pending fixes which of them are still to execute, not their random order']


class CRef(Ref):
    def __init__(self):
        super().__init__()
        self.n = 0

    def add(self, tick, kind, interval):
        i, self.n = self.n, self.n + 1
        if tick >= max(self.now, 0):
            self.pending[i] = [tick, kind, interval]
        return i

    def copy(self, current=None):
        r = CRef()
        r.n, r.now = self.n, self.now
        r.pending = {k: list(v) for k, v in self.pending.items()}
        if current in r.pending:
            r.reschedule(current)
        return r


class Tape:
    """replays draws"""

    def __init__(self, draws):
        self.draws, self.i = draws, 0

    def pick(self, n):
        if self.i >= len(self.draws) or self.draws[self.i][0] != n:
            raise Violation('the restored simulation draws other random numbers than the original: draw %d of %s has %d outcomes' % (
                self.i, self.draws, n))
        self.i += 1
        return self.draws[self.i - 1][1]


class Rec:
    def __init__(self, ch):
        self.ch, self.draws, self.on = ch, [], False

    def pick(self, n):
        c = self.ch.pick(n)
        if self.on:
            self.draws.append((n, c))
        return c


class Zero:
    def pick(self, n):
        return 0


class Sim:
    """one simulation, original or restored"""

    def __init__(self, m, comm, prog, ref):
        self.m, self.comm, self.prog, self.ref = m, comm, prog, ref
        self.runner = None
        self.handles = {}
        self.ended = []
        self.saved = None
        self.ckp = None
        self.rec = None
        self.saves = 0
        self.voided = False

    def evt(self, i):
        info = self.prog.info[i]

        def f():
            self.ref.execute(i, self.runner.tick())
            a = info[2]
            if a is not None:
                if a[0] == 'add':
                    self.schedule(self.ref.now + a[1], a[2], a[3], None)
                elif a[0] == 'void' and a[1] in self.handles:
                    self.handles[a[1]].void()
                    self.voided = True
                    self.ref.pending.pop(a[1], None)
                elif a[0] == 'save':
                    self.save(i)
            if info[1] is not None:
                self.ref.reschedule(i)
        return f

    def schedule(self, tick, kind, interval, action):
        i = self.ref.add(tick, kind, interval)
        self.prog.info[i] = (kind, interval, action)
        pt = self.m.schedule.PriorityType
        kw = {}
        if kind in (P1, P2):
            kw = dict(priority_type=pt.BY_PRIORITY, priority=1 if kind == P1 else 2)
        elif kind != R or i % 2:
            kw = dict(priority_type=getattr(pt, kind))
        md = {'id': i, 'of': lambda evt, i=i: ('computed', i)}
        if self.prog.tagged and i % 2:
            md['tag'] = 'odd'
        if interval is None:
            self.handles[i] = self.runner.schedule_event(tick, self.evt(i), metadata=md, **kw)
        else:
            self.handles[i] = self.runner.schedule_repeating_event(tick, interval, self.evt(i), metadata=md, **kw)
        return i

    def end(self, i):
        def f():
            self.ended.append(i)
            if i == 0 and self.prog.save[0] == 'end':
                self.save(None)
        return f

    def save(self, current):
        self.saves += 1
        if self.ckp is not None or self.prog.restoring:
            return
        c = self.m.checkpoint.Checkpoint()
        c.save_schedule()
        # what is saved stays as it was when the simulation goes on
        self.ckp = pickle.dumps(dill.dumps(c)) if self.prog.pickled else c
        self.saved = self.ref.copy(current)
        self.tick = self.runner.tick()
        # a voided event may still take part in the shuffling of the original
        self.mid = self.voided or any(e[0] == self.ref.now for e in self.saved.pending.values()) or self.prog.save[0] == 'end'
        self.log0 = len(self.ref.log)
        if self.rec is not None:
            self.rec.on = True
            if self.mid:
                self.m.random.default_rng = EnumRng(Zero())

    def finish(self, stop):
        left = {i: e for i, e in self.ref.pending.items() if e[0] <= stop}
        if left:
            raise Violation('events due by the stop tick %s never executed: %s; executed: %s' % (stop, left, self.ref.log))
        late = [x for x in self.ref.log if x[0] > stop]
        if late:
            raise Violation('events executed after the stop tick %s: %s' % (stop, late))
        if self.ended != [0, 1]:
            raise Violation('end events executed: %s instead of [0, 1]' % self.ended)


class Rule:
    """draws by a fixed rule"""

    def __init__(self, rule):
        self.rule, self.k = rule, 0

    def pick(self, n):
        self.k += 1
        return (0, n - 1, n // 2, self.k * 7 % n)[self.rule]


class Prog:
    def __init__(self, evts, save, variant):
        self.evts, self.save, self.variant = evts, save, variant
        self.info = {}
        self.pickled = variant not in ('memory', 'nostop')
        self.tagged = variant in ('tags', 'tag1', 'mixed')
        self.restoring = False

    def __repr__(self):
        return '%s, save %s, %s' % (list(self.evts), self.save, self.variant)


def _original(m, rank, comm, prog, ch, sims):
    ref = CRef()
    s = sims[rank] = Sim(m, comm, prog[rank], ref)
    s.rec = Rec(ch[rank])
    m.random.default_rng = EnumRng(s.rec)
    s.runner = m.schedule.init_schedule_runner(comm)
    p = prog[rank]
    for e in p.evts:
        s.schedule(*e)
    s.runner.schedule_end_event(s.end(0), metadata={'end': 0})
    s.runner.schedule_end_event(s.end(1), metadata={'end': 1})
    s.runner.schedule_stop(STOP)
    if p.save[0] == 'between':
        for _ in range(p.save[1]):
            if s.runner.schedule.next_tick() < STOP:
                s.runner.schedule.execute()
        s.save(None)
    s.runner.execute()
    s.finish(STOP)


def _restored(m, rank, comm, prog, ch, sims, out):
    p, a = prog[rank], sims[rank]
    p.restoring = True
    ref = a.saved.copy()
    s = Sim(m, comm, p, ref)
    same = not a.mid and p.variant in ('all', 'memory', 'tags')
    tape = Tape(a.rec.draws)
    m.random.default_rng = EnumRng(tape if same else ch[rank])
    ckp = dill.loads(pickle.loads(a.ckp)) if p.pickled else a.ckp
    made, processed = [], []

    def creator(md):
        if 'end' in md:
            made.append(('end', md['end']))
            return s.end(md['end'])
        i = md['id']
        if md['of'] != ('computed', i):
            raise Violation('metadata of event %d restored as %s' % (i, md))
        made.append(i)
        if p.variant == 'ignore' and i == 0:
            ref.pending.pop(0, None)
            return m.checkpoint.IGNORE_EVT
        return s.evt(i)

    def processor(md, evt):
        if 'id' in md:
            processed.append(md['id'])
            s.handles[md['id']] = evt
            if p.variant == 'void' and md['id'] == 0:
                evt.void()
                ref.pending.pop(0, None)
        elif 'end' in md:
            processed.append(('end', md['end']))
    # whatever the module's runner is left with does not matter
    m.schedule.init_schedule_runner(comm).schedule_event(0, lambda: None)
    want = sorted(ref.pending)
    if p.tagged:
        s.runner = ckp.restore_schedule(comm, creator, processor, restore_stop_at=True)
        if sorted(x for x in made if not isinstance(x, tuple)) != [i for i in want if i % 2 == 0]:
            raise Violation('events %s created without a tag, expected %s' % (made, [i for i in want if i % 2 == 0]))
        if p.variant == 'mixed':
            # scheduling between the two calls, and after them
            s.schedule(STOP, F, None, None)
        if p.variant in ('tags', 'mixed'):
            ckp.restore_schedule(comm, creator, processor, tag='odd', initialize=False)
        else:
            for i in want:
                if i % 2:
                    del ref.pending[i]
            want = [i for i in want if i % 2 == 0]
    else:
        s.runner = ckp.restore_schedule(comm, creator, processor, restore_stop_at=p.variant != 'nostop')
    if sorted(x for x in made if not isinstance(x, tuple)) != want:
        raise Violation('events %s created, pending were %s' % (sorted(x for x in made if not isinstance(x, tuple)), want))
    if sorted(map(str, processed)) != sorted(str(x) for x in made if not (p.variant == 'ignore' and x == 0)):
        raise Violation('events %s created but %s processed' % (made, processed))
    if s.runner is not m.schedule.runner():
        raise Violation('restore_schedule does not return the runner')
    if s.runner.tick() != a.tick:
        raise Violation('the restored schedule is at tick %s, saved at %s' % (s.runner.tick(), a.tick))
    if p.variant == 'twice':
        # the restored simulation is itself saved, right away or later
        for _ in range(ch[rank].pick(2)):
            if s.runner.schedule.next_tick() < STOP:
                s.runner.schedule.execute()
        ckp, tick, want = m.checkpoint.Checkpoint(), s.runner.tick(), sorted(ref.pending)
        ckp.save_schedule()
        ckp = dill.loads(dill.dumps(ckp))
        ends = [x for x in made if isinstance(x, tuple)]
        made.clear()
        processed.clear()
        s.runner = ckp.restore_schedule(comm, creator, processor, restore_stop_at=True)
        if sorted(x for x in made if not isinstance(x, tuple)) != want or [x for x in made if isinstance(x, tuple)] != ends:
            raise Violation('events %s created from the second checkpoint, pending were %s and %s' % (made, want, ends))
        if s.runner.tick() != tick:
            raise Violation('restored at tick %s, saved again at %s' % (s.runner.tick(), tick))
    stop = STOP
    if p.save[0] == 'end':
        stop = STOP + 2
        s.runner.schedule_stop(stop)
    elif p.variant == 'nostop':
        stop = STOP + 1
        s.runner.schedule_stop(stop)
    elif p.variant in ('more', 'mixed'):
        # the model goes on scheduling
        s.schedule(ref.now + 1 if ref.now >= 0 else 1, F, None, None)
        s.schedule(STOP, L, None, None)
    s.runner.execute()
    s.finish(stop)
    if same:
        if ref.log != a.ref.log[a.log0:]:
            raise Violation('the restored simulation executes %s, the original %s after the checkpoint' % (ref.log, a.ref.log[a.log0:]))
        if tape.i != len(tape.draws):
            raise Violation('the restored simulation draws fewer random numbers')
    out.append((rank, tuple(ref.log)))


def _go(progs, ch, chs=None):
    n = len(progs)
    sims = {}
    out = []
    mods = loader.rank_modules(2 * n)
    chs = chs or [ch] * n
    try:
        run_world(n, _original, progs, chs, sims, mods=mods[:n])
        if any(s.ckp is None for s in sims.values()):
            return
        # as in another process, or going back in the same one
        mods = [mods[n + r] if p.pickled else mods[r] for r, p in enumerate(progs)]
        run_world(n, _restored, progs, chs, sims, out, mods=mods)
    except Violation as v:
        v.msg = '%s: %s' % (progs, v.msg)
        raise
    ch.step(len(out))
    ch.state(sorted(out))


def items(tier):
    deep = tier == 'thorough'
    out = []
    for v in ('all', 'memory', 'nostop', 'ignore', 'void', 'tags', 'tag1', 'mixed', 'more', 'twice'):
        out.append(('between-%s' % v, ('between', v, 2)))
    for k in KINDS:
        # with fewer repeating events if there are many random orders
        if k in (R, P2):
            out.append(('saver-all-%s' % k, ('saver', 'all', k, True)))
        if deep or k in (F, L):
            out.append(('saver-all-%s-full' % k, ('saver', 'all', k, False)))
        if deep or k in (F, L):
            out += [('saver-%s-%s' % (v, k), ('saver', v, k, False)) for v in ('nostop', 'more', 'twice')]
    out += [('end', ('end',)), ('random', ('random', 3)), ('ranks', ('ranks',)), ('values', ('values',))]
    out += [('wide-%s' % v, ('wide', v)) for v in ('all', 'memory', 'tags', 'more', 'twice')]
    if deep:
        out += [('between3-%s' % v, ('between', v, 3)) for v in ('all', 'more', 'tags', 'twice')]
        out += [('saver3-%s' % k, ('saver3', 'all', k, True)) for k in KINDS]
        out += [('random4', ('random', 4))]
    return out


DRAWS = {
    'random': lambda g: float(g.random()), 'integers': lambda g: int(g.integers(0, 1000)),
    'int32': lambda g: int(g.integers(0, 1000, dtype='int32')), 'normal': lambda g: float(g.normal()),
    'shuffle': lambda g: g.permutation(7).tolist(), 'bulk': lambda g: g.random(3).tolist(),
}


def run(params, ch):
    fam = params[0]
    if fam == 'between':
        kinds = KINDS if params[1] in ('all', 'memory', 'tags') else [F, R, P2]
        evts = [(ch.choose((1, 2)), ch.choose(kinds), ch.choose((None, 1)), None) for _ in range(params[2])]
        if params[2] == 2:
            evts[1] = evts[1][:3] + (ch.choose((None, ('add', 1, R, None), ('add', 1, F, 1), ('void', 0)) if kinds is KINDS else (None, ('add', 1, L, 1))),)
        save = ('between', ch.choose((0, 1, 2)))
        _go([Prog(evts, save, params[1])], ch)
    elif fam in ('saver', 'saver3'):
        evts = []
        n = 2 if fam == 'saver' else 3
        for i in range(n):
            kinds = (F, R, L) if params[1] != 'all' else (F, R, P1 if i else P2, L)
            evts.append((ch.choose((1, 2)) if i == 0 else 1, ch.choose(kinds), None if i and params[3] else ch.choose((None, 1)), None))
        if fam == 'saver' and params[1] == 'all':
            evts[1] = evts[1][:3] + (ch.choose((None, ('add', 0, R, None), ('add', 0, F, 1), ('add', 1, L, None))),)
        pos = ch.pick(n + 1)
        tick = ch.choose((1, 2))
        rep = ch.choose((None, 1))
        if rep and evts[0][1:3] == (R, 1) and evts[1][1:3] == (R, 1) and params[2] in (R, P1, P2):
            rep = 2     # fewer random orders
        evts.insert(pos, (tick, params[2], rep, ('save',)))
        _go([Prog(evts, ('evt',), params[1])], ch)
    elif fam == 'end':
        evts = [(ch.choose((1, 2)), ch.choose(KINDS), ch.choose((None, 1, 2)), None) for _ in range(2)]
        _go([Prog(evts + [(STOP + 1, R, None, None)], ('end',), 'nostop')], ch)
    elif fam == 'ranks':
        progs = []
        for r in range(2):
            evts = [(ch.choose((1, 1.5)), ch.choose((F, P1, L)), ch.choose((None, 0.5, 1)), None) for _ in range(2 if r == 0 else 1)]
            evts.append((2, L, None, ('save',)))
            progs.append(Prog(evts, ('evt',), ('all', 'memory')[r]))
        _go(progs, ch)
    elif fam == 'wide':
        # many events, by formulas; drawn by fixed rules
        p, q = 1 + ch.pick(5), ch.pick(4)
        save = ('between', 5 * ch.pick(3)) if ch.pick(2) else ('evt',)
        evts = []
        for i in range(40):
            act = ('add', (i % 3) / 4, KINDS[(i + q) % 5], None) if i % 6 == q else ('void', i * p % 40) if i % 6 == 5 else None
            evts.append(((i * p) % 11 / 4, KINDS[(i * (q + 1) + i // 5) % 5], (None, None, 1, 0.75)[(i * q + i // 4) % 4], act))
        if save[0] == 'evt':
            evts[17] = ((p % 3 + 1) / 2, KINDS[(p + q) % 5], None, ('save',))
        rule = Rule(ch.pick(4))
        _go([Prog(evts, save, params[1])], ch, [rule])
    elif fam == 'random':
        run_world(1, _random, ch, params[1])
    elif fam == 'values':
        run_world(1, _values, ch)


def _random(m, rank, comm, ch, depth):
    names = list(DRAWS)
    seed = ch.choose((0, 1, 42, 2 ** 31 - 1, 123456789))
    mode = ch.pick(3)
    m.random.init(seed)
    before = [ch.choose(names) for _ in range(depth)]
    for k in before:
        DRAWS[k](m.random.default_rng)
    ckp = m.checkpoint.Checkpoint()
    ckp.save_random()
    # mode 0: in memory, the generator goes on; 1: pickled; 2: another generator in between
    data = dill.dumps(ckp)
    want = [DRAWS[k](m.random.default_rng) for k in names + names]
    if mode == 1:
        ckp = dill.loads(data)
    if mode == 2:
        m.random.init(seed + 1)
        DRAWS['int32'](m.random.default_rng)
    ckp.restore_random()
    got = [DRAWS[k](m.random.default_rng) for k in names + names]
    if got != want:
        raise Violation('seed %s, draws %s: after restore_random %s, originally %s' % (seed, before, got, want))
    if m.random.seed != seed:
        raise Violation('restored seed %s, saved %s' % (m.random.seed, seed))
    # a checkpoint can be restored again
    ckp.restore_random()
    if [DRAWS[k](m.random.default_rng) for k in names + names] != want:
        raise Violation('restoring twice differs')
    ch.step()
    ch.state((seed, before, mode))


def _values(m, rank, comm, ch):
    keys = ['a', ('b', 1), 3]
    vals = [None, 0, [1, {'x': (2, 3)}], 'text']
    ckp = m.checkpoint.Checkpoint()
    want = {}
    for _ in range(3):
        k, v = ch.choose(keys), ch.choose(vals)
        ckp.save(k, v)
        want[k] = v
    if ch.pick(2):
        ckp = dill.loads(dill.dumps(ckp))
    for k in keys:
        if k in want:
            got = ckp.restore(k, lambda v, *args: (v, args), 1, 'x')
            if got != (want[k], (1, 'x')):
                raise Violation('restored %s as %s, saved %s' % (k, got, want[k]))
    ch.step()
    ch.state(sorted((str(k), str(v)) for k, v in want.items()))
