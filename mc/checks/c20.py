"""Agents and points are, and remain, what they were created as."""
import gc
import itertools

import numpy as np

from ..common import run_world
from ..engine import Violation

ID = 'C20'
ASSUMPTIONS = ('ranks are not negative; arrays points are set from are of the C types int, long, float or double',)
BIG = 2 ** 63 - 1


def items(tier):
    deep = tier == 'thorough'
    return [('agents', ('agents',)), ('invalid', ('invalid',)), ('subclass', ('subclass',)), ('points', ('points', deep)), ('equality', ('equality',)),
            ('arrays-i', ('arrays', 'i')), ('arrays-f', ('arrays', 'f')), ('resets', ('resets', 4 if deep else 3)), ('attributes', ('attributes',))]


def same_agent(a, uid, local, when):
    got = (a.uid, a.id, a.type, a.uid_rank, a.local_rank)
    want = (uid, uid[0], uid[1], uid[2], local)
    if got != want or type(a.uid) is not tuple:
        raise Violation('%s: uid, id, type, rank and local rank are %s, expected %s' % (when, got, want))
    if '%d, %d, %d' % uid not in str(a):
        raise Violation('%s: printed as %s' % (when, a))


def _agents(m, rank, comm, ch):
    A = m.core.Agent
    ids, types, ranks = (0, 1, -1, 2 ** 31, 2 ** 32 + 1, BIG, -BIG - 1), (0, 1, 2 ** 31 - 1), (None, 0, 1, 300, 2 ** 31 - 1)
    i, t, r = ch.choose(ids), ch.choose(types), ch.choose(ranks)
    uid = (i, t, r or 0)
    how = ch.pick(3)
    if how == 0:
        a = A(i, t) if r is None else A(i, t, r)
    elif how == 1:
        a = A(rank=r or 0, type=t, id=i)
    else:
        a = A(i, type=t, **({} if r is None else {'rank': r}))
    what = 'Agent(%s, %s, %s)' % (i, t, r)
    same_agent(a, uid, uid[2], what)
    u = a.uid
    lr = ch.choose((0, 1, 5, 2 ** 31 - 1))
    a.local_rank = lr
    same_agent(a, uid, lr, what + ' with local rank %d' % lr)
    for k in ('id', 'type', 'uid', 'uid_rank'):
        try:
            setattr(a, k, 3)
        except AttributeError:
            continue
        raise Violation('%s of an agent can be set' % k)
    for bad in ('x', 1.5, None):
        try:
            a.local_rank = bad
        except TypeError:
            continue
        raise Violation('the local rank can be set to %r' % (bad,))
    same_agent(a, uid, lr, what)
    others = [A(*x) for x in ((i, t, uid[2]), (i, t, uid[2] ^ 1), (5, t, uid[2]), (i, 7, uid[2]))]
    for o in others:
        if (o.uid == a.uid) != (others.index(o) == 0) or (hash(o.uid) == hash(a.uid) and o.uid != a.uid):
            raise Violation('%s and %s' % (o, a))
        if o == a:
            raise Violation('another object is equal to %s' % a)
    del a
    if u != uid:
        raise Violation('the uid has become %s' % (u,))
    ch.step()


def _invalid(m, rank, comm, ch):
    A = m.core.Agent
    args, exc = ch.choose((((0, -1), ValueError), ((0, -1, 0), ValueError), ((0, -1, -1), ValueError), ((7, -2 ** 31, 2 ** 31 - 1), ValueError), ((BIG + 1, 0, 0), OverflowError), ((0, 2 ** 31, 0), OverflowError),
                           (('a', 0, 0), TypeError), ((0, 'a', 0), TypeError), ((0, 0, 'a'), TypeError), ((0.5, 0, 0), TypeError), ((0,), TypeError), ((), TypeError),
                           ((0, 0, 0, 0), TypeError), ((0, 0, 2 ** 64), OverflowError)))
    sub = ch.pick(2)

    class B(A):
        def __init__(self, *a):
            self.x = [self]
            super().__init__(*a)
    for _ in range(3):
        try:
            (B if sub else A)(*args)
        except exc:
            continue
        raise Violation('Agent%s is not an error' % (args,))
    ch.step()


def _subclass(m, rank, comm, ch):
    """agents with attributes and constructors of their own, that forget to call ours, or call it late or twice"""
    A = m.core.Agent
    mode = ch.choose(('first', 'last', 'twice', 'never'))

    class B(A):
        __slots__ = ('s', 'more') if ch.pick(2) else ('__dict__',)

        def __init__(self, i):
            if mode in ('first', 'twice'):
                super().__init__(i, 2, rank=1)
            self.more = [i]
            if mode in ('last', 'twice'):
                super().__init__(id=i, type=2, rank=1)
    bs = [B(i) for i in range(3)]
    if mode == 'never':
        for b in bs:
            try:
                b.uid
            except Exception:
                continue
            raise Violation('an agent whose constructor has not been called has uid %s' % (b.uid,))
    else:
        for i, b in enumerate(bs):
            same_agent(b, (i, 2, 1), 1, mode)
        us = [b.uid for b in bs]
        del bs, b
        if us != [(i, 2, 1) for i in range(3)]:
            raise Violation('uids %s' % us)
    ch.step()


def pts(m):
    return m.space.DiscretePoint, m.space.ContinuousPoint


def same_point(p, xyz, what):
    got = (p.x, p.y, p.z)
    if got != tuple(xyz) or any(type(a) is not type(b) for a, b in zip(got, xyz)):
        raise Violation('%s has coordinates %s, expected %s' % (what, got, xyz))
    c = p.coordinates
    if list(c) != list(xyz) or c.shape != (3,):
        raise Violation('%s has coordinates %s, expected %s' % (what, c, xyz))


VALS = ((0, 1, -1, 7, 2 ** 53 + 1, BIG, -BIG - 1), (0.0, 0.5, -1.25, 1e300, -5e-324, float(2 ** 53), float('inf')))


def _points(m, rank, comm, ch, deep):
    k = ch.pick(2)
    P = pts(m)[k]
    vs = VALS[k] if deep else VALS[k][:-1]
    x, y = ch.choose(vs), ch.choose(vs)
    z = ch.choose((None,) + vs)
    how = ch.pick(2)
    args = (x, y) + (() if z is None else (z,))
    p = P(*args) if how else P(**dict(zip('xyz', args)))
    zero = (0, 0.0)[k]
    same_point(p, (x, y, zero if z is None else z), '%s%s' % (P.__name__, args))
    for a in 'xyz':
        try:
            setattr(p, a, 3)
        except AttributeError:
            continue
        raise Violation('%s of a point can be set' % a)
    c = p.coordinates
    del p
    if list(c) != [x, y, zero if z is None else z]:
        raise Violation('the coordinates have become %s' % c)
    ch.step()


def _equality(m, rank, comm, ch):
    D, C = pts(m)
    k = ch.pick(2)
    P = (D, C)[k]
    vs = ((0, 1, -1), (0.0, 0.5, -0.0))[k]
    a = [ch.choose(vs) for _ in range(3)]
    b = [ch.choose(vs) for _ in range(3)]
    p, q = P(*a), P(*b)
    if (p == q) is not (a == b):
        raise Violation('%s == %s gives %s' % (p, q, p == q))
    if (p != q) is not (a != b):
        raise Violation('%s != %s gives %s' % (p, q, p != q))
    if not p == p or p != p:
        raise Violation('%s is not equal to itself' % p)
    if (q in [p]) != (a == b) or [q].count(p) != (a == b):
        raise Violation('%s in a list of %s' % (p, q))
    for o in (None, 1, tuple(a), (C, D)[k](*[(float, int)[k](v) for v in a])):
        if p == o or not p != o:
            raise Violation('%s is equal to %r' % (p, o))
    ch.step()


def _arrays(m, rank, comm, ch, ty):
    """points set from views of arrays"""
    P = pts(m)[ty == 'f']
    types = (np.int64, np.int32, np.longlong) if ty == 'i' else (np.float64, np.float32)
    dt = ch.choose(types)
    base = np.arange(1, 61).astype(dt)
    if ty == 'f':
        base = (base / 4).astype(dt)
    n = 1 + ch.pick(4)
    view = ch.choose(('whole', 'step', 'reverse', 'column', 'row', 'offset', 'field', 'transposed', 'broadcast', 'swapped', 'readonly'))
    arr = {'whole': lambda: base[:n].copy(), 'step': lambda: base[3:3 + 2 * n:2], 'reverse': lambda: base[20:20 - n:-1], 'column': lambda: base.reshape(10, 6)[2:2 + n, 3],
           'row': lambda: base.reshape(10, 6)[4, 1:1 + n], 'offset': lambda: base[5:5 + n], 'field': lambda: np.array([(1, v) for v in base[:n]], dtype=[('a', 'i1'), ('b', dt)])['b'],
           'transposed': lambda: np.array([base[:5], base[10:15], base[20:25], base[30:35]]).T[1, :n], 'broadcast': lambda: np.broadcast_to(base[7:8], (n,)),
           'swapped': lambda: base[:n].astype(base.dtype.newbyteorder()), 'readonly': lambda: base[1:1 + n].view()}[view]()
    if view == 'readonly':
        arr.flags.writeable = False
    old = (90, 91, 92) if ty == 'i' else (90.5, 91.5, 92.5)
    p = P(*old)
    p._reset_from_array(arr)
    cv = int if ty == 'i' else float
    want = [cv(v) for v in arr.tolist()[:3]] + list(old[n:])
    same_point(p, want, 'a point set from a %s array of %s (%s)' % (dt.__name__, arr.tolist(), view))
    base[:] = 0
    same_point(p, want, 'a point set from a %s array (%s), then changed,' % (dt.__name__, view))
    ch.step()


def _resets(m, rank, comm, ch, n):
    """sequences of ways to set a point, and invalid ones which leave an error"""
    k = ch.pick(2)
    P = pts(m)[k]
    cv = (int, float)[k]
    p = P(cv(1), cv(2), cv(3))
    cur = [cv(1), cv(2), cv(3)]
    c = p.coordinates
    for i in range(n):
        v = [cv(10 * (i + 1) + j) for j in range(3)]
        op = ch.choose(('a1', 'a2', 'a3', 'tuple', '1', '2', '3', 'bad2d', 'badtype', 'badobj'))
        if op[0] == 'a':
            d = int(op[1])
            p._reset_from_array(np.array(v[:d]))
            cur[:d] = v[:d]
        elif op == 'tuple':
            p._reset(tuple(v))
            cur = v
        elif op in '123':
            d = int(op)
            getattr(p, '_reset%dD' % d)(*v[:d])
            cur[:d] = v[:d]
        else:
            bad = {'bad2d': np.array([v]), 'badtype': np.array(v).astype(float if k == 0 else int), 'badobj': v}[op]
            try:
                p._reset_from_array(bad)
            except (RuntimeError, TypeError):
                pass
            else:
                raise Violation('%s can be set from %r' % (P.__name__, bad))
        same_point(p, cur, 'after %s a point' % op)
        if list(c) != cur:
            raise Violation('the coordinates are %s after %s, expected %s' % (c, op, cur))
        ch.step()


def _attributes(m, rank, comm, ch):
    """many agents keep their own attributes and identity while others come and go"""
    A = m.core.Agent

    class B(A):
        def __init__(self, i, v):
            super().__init__(i, v % 3, rank=v)
            self.v = v
    live = {}
    for i in range(6):
        op = ch.pick(3)
        if op == 2 and live:
            del live[min(live)]
        else:
            live[i] = B(i, i + op)
            live[i].want = (i, (i + op) % 3, i + op)
        for j, b in live.items():
            same_agent(b, b.want, b.want[2], 'agent %d' % j)
            if b.v != b.want[2] or b.__dict__.keys() != {'v', 'want'}:
                raise Violation('attributes %s' % b.__dict__)
    ch.step()


FN = {'agents': _agents, 'invalid': _invalid, 'subclass': _subclass, 'points': _points, 'equality': _equality, 'arrays': _arrays, 'resets': _resets, 'attributes': _attributes}


def run(params, ch):
    run_world(1, FN[params[0]], ch, *params[1:])
    # what an object is to be like follows from the values it has been made and changed with
    ch.state((params[0], ch.trace))
