"""Exhaustive exploration of harness programs.

A check is a module in mc/checks with
    ID, TITLE             property id
    items(tier)           list of (name, params): the configurations explored
    run(params, ch)       one execution; every nondeterministic decision is
                          ch.pick(n)/ch.choose(seq).  Raises Violation.
The engine enumerates every sequence of choices of every item (depth first,
stateless), spreads the work over processes, watches for crashes and hangs,
and writes the evidence and the replay file.
"""
import hashlib
import json
import mmap
import multiprocessing as mp
import os
import pickle
import queue
import select
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
CRUMB = 1 << 16


class Violation(Exception):
    """The property does not hold. sig identifies the failing input for the
    known-findings file."""

    def __init__(self, msg, sig=None, detail=None):
        super().__init__(msg)
        self.msg, self.sig, self.detail = msg, sig, detail


class Prune(Exception):
    """The rest of this execution is equivalent to one already explored."""


class Skip(Exception):
    pass


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = prefix
        self.trace = []
        self.width = []
        self.transitions = 0
        self.states = set()
        self.notes = {}
        self.traces_checked = 0

    def pick(self, n):
        """A decision with n alternatives."""
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if n <= 0:
            raise RuntimeError('pick(0)')
        if c >= n:
            raise RuntimeError('replay diverged: choice %d of %d at %d' % (c, n, i))
        self.trace.append(c)
        self.width.append(n)
        return c

    def choose(self, seq):
        seq = seq if isinstance(seq, (list, tuple)) else list(seq)
        return seq[self.pick(len(seq))] if len(seq) > 1 else seq[0]

    def fresh(self):
        """whether the last decision has not been part of an earlier execution"""
        return len(self.trace) >= len(self.prefix)

    def step(self, k=1):
        self.transitions += k

    def state(self, key):
        self.states.add(int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'little'))

    def note(self, **kw):
        for k, v in kw.items():
            self.notes[k] = self.notes.get(k, 0) + v


class Stats:
    def __init__(self):
        self.execs = 0
        self.transitions = 0
        self.states = set()
        self.notes = {}
        self.max_depth = 0

    def add(self, ch):
        self.execs += 1
        self.transitions += ch.transitions
        self.states |= ch.states
        self.max_depth = max(self.max_depth, len(ch.trace))
        for k, v in ch.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def merge(self, o):
        self.execs += o.execs
        self.transitions += o.transitions
        self.states |= o.states
        self.max_depth = max(self.max_depth, o.max_depth)
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v


def run_once(check, params, prefix):
    """-> (chooser, violation or None)"""
    ch = Chooser(prefix)
    try:
        check.run(params, ch)
    except Prune:
        pass
    except Violation as v:
        return ch, v
    except Exception as e:
        tb = traceback.format_exc()
        return ch, Violation('unexpected %s: %s' % (type(e).__name__, e), sig='exception:' + type(e).__name__, detail=tb[-3000:])
    return ch, None


def explore(check, item, prefix, quantum, crumb=None):
    """Depth first over all choices extending `prefix`, for about `quantum`
    seconds. -> stats, violations, remaining prefixes"""
    name, params = item
    st = Stats()
    fixed = len(prefix)
    cur = list(prefix)
    t0 = time.time()
    viol = []
    while True:
        if crumb is not None:
            crumb(name, cur)
        ch, v = run_once(check, params, cur)
        st.add(ch)
        if v is not None:
            viol.append((name, list(ch.trace), v.msg, v.sig, v.detail))
            if len(viol) >= 20:
                return st, viol, []
        # next in depth-first order
        tr, wd = ch.trace, ch.width
        i = len(tr) - 1
        while i >= fixed and tr[i] + 1 >= wd[i]:
            i -= 1
        if i < fixed:
            return st, viol, []
        cur = tr[:i] + [tr[i] + 1]
        if time.time() - t0 > quantum:
            rest = [cur]
            # siblings of the current position, and untouched ones above it
            for c in range(tr[i] + 2, wd[i]):
                rest.append(tr[:i] + [c])
            for j in range(fixed, i):
                for c in range(tr[j] + 1, wd[j]):
                    rest.append(tr[:j] + [c])
            return st, viol, rest
        del tr, wd


# ------------------------------------------------------------------ workers

def _worker(check, conn, shm, setup):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        if setup:
            setup()
    except BaseException:
        conn.send(('fatal', traceback.format_exc()))
        os._exit(3)

    def crumb(name, cur):
        b = pickle.dumps((name, cur))
        if len(b) < CRUMB - 16:
            shm[0:16] = struct.pack('dq', time.time(), len(b))
            shm[16:16 + len(b)] = b
    while True:
        try:
            task = conn.recv()
        except EOFError:
            os._exit(0)
        if task is None:
            os._exit(0)
        item, prefix, quantum = task
        try:
            res = explore(check, item, prefix, quantum, crumb)
            conn.send(('ok', res))
        except BaseException:
            conn.send(('fatal', traceback.format_exc()))
        shm[0:16] = struct.pack('dq', 0, 0)


class _W:
    def __init__(self, ctx, check, setup):
        self.conn, child = ctx.Pipe()
        self.shm = mmap.mmap(-1, CRUMB)
        self.p = ctx.Process(target=_worker, args=(check, child, self.shm, setup), daemon=True)
        self.p.start()
        child.close()
        self.task = None

    def since(self):
        """start of the current execution, 0 if none"""
        return struct.unpack('d', self.shm[0:8])[0]

    def crumb(self):
        """only meaningful once the worker is dead or stuck"""
        n = struct.unpack('q', self.shm[8:16])[0]
        try:
            return pickle.loads(self.shm[16:16 + n]) if n else None
        except Exception:
            return None

    def kill(self):
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.join(5)
        self.conn.close()
        self.shm.close()


def nworkers():
    try:
        n = len(os.sched_getaffinity(0))
    except Exception:
        n = os.cpu_count() or 1
    return max(1, min(8, n))


def run_all(check, items, setup=None, budget=600.0, hang=60.0, stop_on_first=True, known=lambda v: False, quantum=0.7):
    """-> stats, violations, complete(bool), per-item stats"""
    ctx = mp.get_context('fork')
    t0 = time.time()
    import collections
    tasks = collections.deque((it, []) for it in items)
    stats = Stats()
    viol = []
    fatal = None
    nw = nworkers()
    ws = [_W(ctx, check, setup) for _ in range(nw)]
    complete = True
    open_items = {}
    for it in items:
        open_items[it[0]] = open_items.get(it[0], 0) + 1
    halt = False
    try:
        while True:
            if time.time() - t0 > budget and tasks:
                complete = False
                tasks.clear()
                halt = True
            for w in ws:
                if w.task is None and tasks and not halt:
                    w.task = tasks.popleft()
                    # short quanta while there are idle workers
                    q = quantum if len(tasks) >= nw else quantum / 4
                    w.conn.send((w.task[0], w.task[1], q))
            busy = [w for w in ws if w.task is not None]
            if not busy:
                if not tasks or halt:
                    break
                continue
            ready = mp.connection.wait([w.conn for w in busy], timeout=1.0)
            for w in list(busy):
                dead = False
                if w.conn in ready:
                    try:
                        kind, res = w.conn.recv()
                    except (EOFError, OSError):
                        dead = True
                    else:
                        if kind == 'fatal':
                            fatal = res
                            halt = True
                            w.task = None
                            continue
                        st, vs, rest = res
                        stats.merge(st)
                        for v in vs:
                            viol.append(v)
                            if stop_on_first and not known(v):
                                halt = True
                                complete = False
                        item = w.task[0]
                        if not halt:
                            for p in reversed(rest):
                                tasks.appendleft((item, p))
                        w.task = None
                        continue
                t = w.since()
                if dead or (t and time.time() - t > hang):
                    what = w.crumb()
                    if what is None:
                        fatal = 'a worker died outside an execution'
                        halt = True
                    else:
                        w.p.join(5) if dead else None
                        code = w.p.exitcode
                        msg = ('the process crashed (%s) during the execution' % (
                            signal.Signals(-code).name if code and code < 0 else 'exit %s' % code)) if dead else \
                            'the execution did not end within %d s' % hang
                        v = (what[0], what[1], msg, 'crash' if dead else 'hang', None)
                        viol.append(v)
                        complete = False
                        if stop_on_first and not known(v):
                            halt = True
                    w.kill()
                    i = ws.index(w)
                    ws[i] = _W(ctx, check, setup)
            if halt and time.time() - t0 > budget + 30:
                break
            if halt and viol:
                break
            if fatal:
                break
    finally:
        for w in ws:
            w.kill()
    return stats, viol, complete and not fatal, fatal


# ------------------------------------------------------------------ known findings

def load_known(pid):
    """known-findings.txt lines:
    property=<id> sig=<signature> <what fails>      (reported, exit 0)
    fixed: property=<id> <commit> <what failed>     (suppresses nothing)"""
    out = {}
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('property=%s sig=' % pid):
                rest = line[len('property=%s sig=' % pid):]
                sig, _, what = rest.partition(' ')
                out[sig] = what
    return out


def write_replay(pid, v, n=0):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'item': v[0], 'choices': v[1], 'message': v[2], 'sig': v[3], 'detail': v[4]}, f, indent=1)
    return path


def write_evidence(pid, tier, cov, wall, nviol, assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
          'coverage': cov, 'wall_s': round(wall, 2), 'violations': nviol, 'assumptions': list(assumptions)}
    tmp = os.path.join(EVID, '.%s.%d.tmp' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + '.json'))
