"""Logged data: the files hold what all ranks have logged, reduced or by row,
once, in order, under names that overwrite nothing."""
import csv
import itertools
import os
import tempfile
from dataclasses import make_dataclass

import numpy as np
from mpi4py import MPI

from ..common import run_world
from ..engine import Violation

ID = 'C17'
ASSUMPTIONS = ('all ranks call log, write and close together, as documented', 'one reduction of doubles in any order gives the same number for the values used')

OPS = {'sum': MPI.SUM, 'min': MPI.MIN, 'max': MPI.MAX, 'prod': MPI.PROD}
PY = {'sum': sum, 'min': min, 'max': max, 'prod': lambda v: float(np.prod(v)) if isinstance(v[0], float) else int(np.prod(v))}


def items(tier):
    deep = tier == 'thorough'
    out = []
    for n in (1, 2, 3):
        for buf in (1, 2, 3, None):
            out.append(('reduce-n%d-b%s' % (n, buf), ('reduce', n, buf, 7 if deep else 5)))
        out.append(('tabular-n%d' % n, ('tabular', n, (5 if n < 3 else 4) if deep else (4 if n < 3 else 3))))
    for n, logs in [(1, 2), (2, 2), (3, 1), (2, 3)] + ([(3, 2)] if deep else []):
        for op in sorted(OPS):
            out.append(('values-%s-n%d-l%d' % (op, n, logs), ('values', n, logs, op)))
    out.append(('long', ('long', 2)))
    out.append(('two-n2', ('two', 2, 5 if deep else 4)))
    out.append(('columns-n2', ('columns', 2)))
    for k in ('reduce', 'tabular'):
        out.append(('files-%s' % k, ('files', k)))
    return out


def table(path, delim=','):
    with open(path, newline='') as f:
        text = f.read()
    rows = list(csv.reader(text.splitlines(True), delimiter=delim))
    if not text.endswith('\n'):
        raise Violation('the file ends with %r' % text[-20:])
    return rows


def same(rows, header, want, what):
    """want: rows of numbers, ints where ints are to be written"""
    if rows[:1] != [header]:
        raise Violation('%s: header %s, expected %s' % (what, rows[:1], header))
    if len(rows) - 1 != len(want):
        raise Violation('%s: %d rows, expected %d: %s' % (what, len(rows) - 1, len(want), rows[:20]))
    for i, (g, w) in enumerate(zip(rows[1:], want)):
        try:
            v = [type(y)(x) for x, y in zip(g, w)]
        except ValueError:
            v = None
        if len(g) != len(w) or v != list(w):
            raise Violation('%s: row %d is %s, expected %s' % (what, i, g, w))


class Source:
    """a data source of the user"""
    name, dtype = 'mine', np.dtype(np.int64)

    def __init__(self):
        self.v = 0

    @property
    def value(self):
        return self.v


D = make_dataclass('D', [('a', int, 0), ('b', float, 0.0), ('c', float, 0.0)])


def loggers(m, d, rank, src=None):
    lg = m.logging.create_loggers(d, MPI.SUM, rank, names={'b': 'mean b', 'a': None})
    lg += m.logging.create_loggers(d, MPI.MIN, rank, names={'a': 'low'})
    lg += m.logging.create_loggers(d, MPI.MAX, rank, names={'c': None})
    if src is not None:
        lg.append(m.logging.ReducingDataLogger(src, MPI.SUM, rank))
    return lg


HEADER = ['tick', 'a', 'mean b', 'low', 'c', 'mine']


def row(i, n):
    """of the i-th log, on n ranks"""
    vals = [value(i, r) for r in range(n)]
    return (TICKS[i % len(TICKS)] + i // len(TICKS) * 100, sum(v[0] for v in vals), sum(v[1] for v in vals), min(v[0] for v in vals),
            max(v[2] for v in vals), sum(v[3] for v in vals))


TICKS = (0.5, 1.0, 1.25, 3.0, 1e6, 1e6 + 0.125)


def value(i, r):
    return ((i * 7 + r * 3) % 5 - 2, 0.5 * i + r, -1.0 / (1 << (i + r) % 9), 10 ** 12 * (r + 1) + i)


def _log(ds, d, src, i, rank):
    d.a, d.b, d.c, src.v = value(i, rank)
    ds.log(row(i, 1)[0])
    # a later change of the source is not logged
    d.a, d.b, d.c, src.v = 99, 99.5, 99.5, 99


def _reduce(m, rank, comm, n, buf, plan, path, delim):
    d, src = D(), Source()
    lg = loggers(m, d, rank, src)
    ds = m.logging.ReducingDataSet(lg, comm, path, **dict({} if buf is None else {'buffer_size': buf}, **({'delimiter': delim} if delim != ',' else {})))
    logged = written = 0
    for k, op in enumerate(plan):
        if op == 'log':
            _log(ds, d, src, logged, rank)
            logged += 1
            if buf is not None and logged - written >= buf:
                written = logged
        else:
            getattr(ds, op)()
            written = logged
        if rank == 0:
            same(table(path, delim), HEADER, [row(i, n) for i in range(written)], 'after %s' % (plan[:k + 1],))
        if [x.size for x in lg] != [logged - written] * len(lg):
            raise Violation('rank %d: the loggers hold %s values after %s' % (rank, [x.size for x in lg], plan[:k + 1]))


def _values(m, rank, comm, op, vals, path):
    # vals[log][rank]
    d = make_dataclass('V', [('i', int, 0), ('f', float, 0.0)])()
    lg = m.logging.create_loggers(d, OPS[op], rank)
    if [x.name for x in lg] != ['i', 'f'] or [x.dtype for x in lg] != [np.dtype(int), np.dtype(float)]:
        raise Violation('loggers %s' % [(x.name, x.dtype) for x in lg])
    ds = m.logging.ReducingDataSet(lg, comm, path)
    for k, vs in enumerate(vals):
        d.i, d.f = vs[rank]
        ds.log(float(k))
    ds.close()
    # logging may go on
    d.i, d.f = 1, 2.0
    ds.log(77.0)
    res = [x.reduce(comm) for x in lg]
    if rank == 0:
        same(table(path), ['tick', 'i', 'f'], [(float(k), PY[op]([v[0] for v in vs]), PY[op]([v[1] for v in vs])) for k, vs in enumerate(vals)], op)
        n = comm.Get_size()
        if [list(r) for r in res] != [[PY[op]([1] * n)], [PY[op]([2.0] * n)]]:
            raise Violation('reduced to %s' % res)
    elif any(r is not None for r in res):
        raise Violation('rank %d: reduce returns %s' % (rank, res))


def _columns(m, rank, comm, names, path):
    """the loggers chosen from a dataclass, and in what order"""
    d, src = D(), Source()
    try:
        lg = m.logging.create_loggers(d, MPI.SUM, rank, names=names) if names is not None else m.logging.create_loggers(d, MPI.SUM, rank)
    except ValueError:
        if names is not None and not set(names) & {'a', 'b', 'c'}:
            return
        raise
    if names is not None and not set(names) & {'a', 'b', 'c'}:
        raise Violation('no error for names %s' % names)
    ds = m.logging.ReducingDataSet(lg, comm, path, buffer_size=2)
    for i in range(3):
        _log(ds, d, src, i, rank)
    ds.close()
    if rank == 0:
        fs = [f for f in 'abc' if names is None or f in names]
        n = comm.Get_size()
        same(table(path), ['tick'] + [(names or {}).get(f) or f for f in fs],
             [(row(i, 1)[0],) + tuple(sum(value(i, r)['abc'.index(f)] for r in range(n)) for f in fs) for i in range(3)], str(names))


def _two(m, rank, comm, plan, path):
    """two data sets at a time, of one source"""
    d, src = D(), Source()
    ds = [m.logging.ReducingDataSet(loggers(m, d, rank, src), comm, path, buffer_size=b) for b in (2, 3)]
    n = comm.Get_size()
    logged, written = [0, 0], [0, 0]
    for op, k in plan:
        if op == 'log':
            _log(ds[k], d, src, logged[k], rank)
            logged[k] += 1
            if logged[k] - written[k] >= 2 + k:
                written[k] = logged[k]
        else:
            getattr(ds[k], op)()
            written[k] = logged[k]
        if rank == 0:
            for j, p in enumerate((path, path.replace('.csv', '_1.csv'))):
                same(table(p), HEADER, [row(i, n) for i in range(written[j])], 'after %s' % (plan,))


CELLS = ['a,b', '"q"', 'x\ny', '', 'é;', ' s ', "it's", '1;2', 'tab\t']


def _tabular(m, rank, comm, plan, path, delim, rows):
    headers = ['t', 'a b', 'h' + delim + 'x']
    lg = m.logging.TabularLogger(comm, path, headers, **({'delimiter': delim} if delim != ',' else {}))
    # rows[rank] not written, and the file
    pend = [[] for _ in range(comm.Get_size())]
    file = []
    count = 0
    for k, op in enumerate(plan):
        if isinstance(op, int):
            r = (op, count, 0.5 * count, CELLS[count % len(CELLS)])
            count += 1
            if rank == op:
                lg.log_row(*r)
            pend[op].append([str(x) for x in r])
        else:
            getattr(lg, op)()
            for p in pend:
                file += p
                p.clear()
        if rank == 0:
            got = table(path, delim)
            if got != [headers] + file:
                raise Violation('after %s: the file has %s, expected %s' % (plan[:k + 1], got, [headers] + file))
        comm.Barrier()


NAMES = ('log.csv', 'log', 'a.b.csv', 'out/log.csv', './x.d/e/log.csv', '../sub/l', 'log_1.csv')


def _files(m, rank, comm, kind, arg, again, cwd):
    for k in range(1 + again):
        if kind == 'reduce':
            d, src = D(), Source()
            ds = m.logging.ReducingDataSet(loggers(m, d, rank, src), comm, arg)
            _log(ds, d, src, k, rank)
        else:
            ds = m.logging.TabularLogger(comm, arg, ['h'])
            ds.log_row('%d-%d' % (rank, k))
        ds.close()


def free(name, taken):
    """the documented name: name.csv, name_1.csv, ..."""
    d, b = os.path.split(name)
    stem, ext = os.path.splitext(b)
    for i in itertools.count(0):
        p = os.path.join(d, '%s_%d%s' % (stem, i, ext) if i else b)
        if os.path.normpath(p) not in taken:
            return os.path.normpath(p)


def run_files(kind, ch, tmp):
    name = ch.choose(NAMES)
    absolute = ch.pick(2)
    again = ch.pick(2)
    cwd = os.path.join(tmp, 'cwd')
    os.mkdir(cwd)
    os.mkdir(os.path.join(tmp, 'sub'))
    d, b = os.path.split(name)
    stem, ext = os.path.splitext(b)
    cands = [b] + ['%s_%d%s' % (stem, i, ext) for i in (1, 2, 3)]
    taken = {}
    if d in ('', '../sub') or ch.pick(2):
        os.makedirs(os.path.join(cwd, d), exist_ok=True)
        for c in cands:
            if ch.pick(2):
                taken[os.path.normpath(os.path.join(d, c))] = c
                with open(os.path.join(cwd, d, c), 'w') as f:
                    f.write(c)
    new = []
    for _ in range(1 + again):
        new.append(free(name, set(taken) | set(new)))
    old = os.getcwd()
    os.chdir(cwd)
    try:
        run_world(2, _files, kind, os.path.join(cwd, name) if absolute else name, again, cwd)
        for p, c in taken.items():
            if open(p).read() != c:
                raise Violation('%s has been overwritten by %s' % (p, name))
        for k, p in enumerate(new):
            if not os.path.exists(p):
                raise Violation('%s with %s existing: not written to %s' % (name, sorted(taken), p))
            if kind == 'reduce':
                same(table(p), HEADER, [row(k, 2)], p)
            elif table(p) != [['h'], ['0-%d' % k], ['1-%d' % k]]:
                raise Violation('%s has %s' % (p, table(p)))
        have = {os.path.normpath(os.path.relpath(os.path.join(b, f), cwd)) for b, _, fs in os.walk(tmp) for f in fs}
        if have != set(taken) | set(new):
            raise Violation('files %s, expected %s' % (sorted(have), sorted(set(taken) | set(new))))
    finally:
        os.chdir(old)
    ch.step()
    return new


def run(params, ch):
    kind, seen = params[0], None
    with tempfile.TemporaryDirectory(prefix='mc-c17-') as tmp:
        path = os.path.join(tmp, 'data', 'log.csv')
        if kind == 'reduce':
            _, n, buf, depth = params
            plan = [ch.choose(('log', 'write', 'close')) for _ in range(depth)] + ['close']
            seen = (buf, plan)
            run_world(n, _reduce, n, buf, plan, path, ch.choose((',', ';')) if n == 2 else ',')
        elif kind == 'long':
            # many values before they are written
            plan = []
            for _ in range(2):
                plan += ['log'] * ch.choose((1, 499, 500, 501, 1000, 1001)) + ['write']
            seen = plan
            run_world(2, _long, plan, ch.choose((300, 500, 501, 1500)), path)
        elif kind == 'values':
            _, n, logs, op = params
            vs = ((0, 0.0), (3, 0.1), (-2, -1e100), (7, 2.5))
            vals = [[ch.choose(vs) for _ in range(n)] for _ in range(logs)]
            seen = vals
            run_world(n, _values, op, vals, path)
        elif kind == 'columns':
            opts = [None] + [dict(zip(k, v)) for r in range(4) for k in itertools.permutations('abz', r) for v in itertools.product((None, 'N'), repeat=r)]
            seen = ch.choose(opts)
            run_world(2, _columns, seen, path)
        elif kind == 'two':
            plan = [(ch.choose(('log', 'write')), ch.pick(2)) for _ in range(params[2])] + [('close', 1), ('close', 0)]
            seen = plan
            run_world(2, _two, plan, path)
        elif kind == 'tabular':
            _, n, depth = params
            plan = [ch.choose(tuple(range(n)) + ('write', 'close')) for _ in range(depth)] + ['close']
            seen = plan
            run_world(n, _tabular, plan, path, ch.choose((',', ';', '\t')), None)
        else:
            seen = run_files(params[1], ch, tmp)
    # the contents of the files follow from the operations so far
    ch.state((params, seen))
    ch.step()


def _long(m, rank, comm, plan, buf, path):
    d, src = D(), Source()
    ds = m.logging.ReducingDataSet(loggers(m, d, rank, src), comm, path, buffer_size=buf)
    logged = 0
    for op in plan + ['close']:
        if op == 'log':
            _log(ds, d, src, logged, rank)
            logged += 1
        else:
            getattr(ds, op)()
            if rank == 0:
                same(table(path), HEADER, [row(i, comm.Get_size()) for i in range(logged)], 'after %s of %d' % (op, logged))
