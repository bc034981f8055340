"""Parameters and random seed: the parameters are those of the file overridden
by those of the string, and the seed determines everything random."""
import importlib.util
import itertools
import json
import os
import tempfile
import time

import networkx as nx
import numpy as np
import torch
import yaml

from .. import worlds
from ..common import run_world
from ..engine import Violation

ID = 'C19'
ASSUMPTIONS = ('the parameters file is a yaml mapping or empty; the generators of numpy and torch are reproducible themselves',)

VALS = {'x': (4, -2.5, 'a b', True, None, [1, 'b'], {'n': {'m': 1}}, '1', ''), 'random.seed': (6, 0, 2 ** 32 + 1)}
SEEDS = (0, 1, 42, 2 ** 31, 2 ** 63 - 1)


def items(tier):
    deep = tier == 'thorough'
    out = [('params-n%d' % n, ('params', n)) for n in (1, 2)]
    out += [('again', ('again',)), ('dump', ('dump',)), ('seeds', ('seeds',)), ('fresh', ('fresh',)), ('parser', ('parser',))]
    out += [('programs-%s' % b, ('programs', b, 3 if deep else 2)) for b in ('before', 'after')]
    return out


def write(tmp, d, name='p.yaml'):
    p = os.path.join(tmp, name)
    with open(p, 'w') as f:
        if d is not None:
            yaml.safe_dump(d, f)
    return p


def choose_params(ch, few=False):
    """file, string and what they are together"""
    d = {}
    for k in ('x', 'y', 'random.seed'):
        v = ch.choose((None,) + tuple((v,) for v in (VALS.get(k) or (7,))[:1 if few else None]))
        if v is not None:
            d[k] = v[0]
    return d


def matches(seed, rng, k=3):
    return list(rng.integers(0, 10 ** 9, k)) == list(np.random.default_rng(seed).integers(0, 10 ** 9, k))


def same(a, b):
    return type(a) is type(b) and a == b and (not isinstance(a, dict) or all(type(a[k]) is type(b[k]) for k in a))


def _params(m, rank, comm, path, string, want, file):
    m.random.init(99)
    before = m.random.default_rng
    got = m.parameters.init_params(path, string)
    for g in (got, m.parameters.params):
        if not same(g, want):
            raise Violation('parameters %s with %r are %s, expected %s' % (file, string, g, want))
    s = want.get('random.seed', 99)
    if m.random.seed != s:
        raise Violation('the seed is %s, expected %s: parameters %s' % (m.random.seed, s, want))
    if 'random.seed' not in want and m.random.default_rng is not before:
        raise Violation('the generator is replaced without a seed')
    if not matches(s, m.random.default_rng):
        raise Violation('the generator does not give the numbers of seed %s' % s)


class Program:
    """what uses random numbers, made before or after the seed is set"""

    KINDS = ('draw', 'shuffle', 'types', 'schedule', 'network', 'point', 'cpoint', 'torch')

    def __init__(self, m, comm, tmp):
        self.m, self.tmp = m, tmp
        self.ctx = m.context.SharedContext(comm)
        A = worlds.agent_class(m)
        for i in range(6):
            self.ctx.add(A(i, i % 2, 0))
        bb = m.geometry.BoundingBox(0, 50, 0, 50, 0, 0)
        sp = m.space
        self.grid = sp.SharedGrid('g', bb, sp.BorderType.Sticky, sp.OccupancyType.Multiple, 0, comm)
        self.space = sp.SharedCSpace('c', bb, sp.BorderType.Sticky, sp.OccupancyType.Multiple, 0, comm, tree_threshold=10)
        self.graph = nx.path_graph(12)

    def run(self, kind):
        m = self.m
        if kind == 'draw':
            return [float(m.random.default_rng.random()) for _ in range(2)]
        if kind == 'shuffle':
            return [a.uid for a in self.ctx.agents(shuffle=True)]
        if kind == 'types':
            return [a.uid for a in self.ctx.agents(1, shuffle=True)]
        if kind == 'schedule':
            log = []
            r = m.schedule.init_schedule_runner(self.ctx.comm)
            for i in range(5):
                r.schedule_event(1.0, m.schedule.create_arg_evt(log.append, i) if hasattr(m.schedule, 'create_arg_evt') else lambda i=i: log.append(i))
            r.schedule_event(1.0, lambda: log.append('p'), priority_type=m.schedule.PriorityType.BY_PRIORITY, priority=2.0)
            r.execute()
            return log
        if kind == 'network':
            p = os.path.join(self.tmp, 'net')
            m.network.write_network(self.graph, 'n', p, 3)
            return open(p).read()
        if kind == 'point':
            pt = self.grid.get_random_local_pt(m.random.default_rng)
            return pt.x, pt.y, pt.z
        if kind == 'cpoint':
            pt = self.space.get_random_local_pt(m.random.default_rng)
            return pt.x, pt.y, pt.z
        return torch.rand(2).tolist()


def _programs(m, rank, comm, when, kinds, seed, tmp):
    p = Program(m, comm, tmp) if when == 'before' else None
    m.random.init(seed)
    if m.random.seed != seed:
        raise Violation('the seed is %s after init(%s)' % (m.random.seed, seed))
    res = []
    for k in range(3):
        if when == 'after' or p is None:
            p = Program(m, comm, tmp)
        if k == 1:
            # nothing but the seed matters
            np.random.seed(k)
            m.random.default_rng.random(k)
        m.random.init(seed if k < 2 else seed + 1)
        res.append([p.run(x) for x in kinds])
    if res[0] != res[1]:
        raise Violation('%s with seed %s: %s and then %s' % (kinds, seed, res[0], res[1]))
    for a, b, x in zip(res[0], res[2], kinds):
        # numbers of a large range, 12 positions... are the same by chance only with negligible, and fixed, probability
        if a == b and x in ('draw', 'torch', 'cpoint', 'network'):
            raise Violation('%s gives %s with seeds %s and %s' % (x, a, seed, seed + 1))


def _again(m, rank, comm, ch, tmp):
    """initialized twice: nothing remains of the first"""
    a = {'x': 1, 'y': ch.choose((2, {'n': 1}))}
    b = {'x': ch.choose((1, 5)), 'z': 3}
    if ch.pick(2):
        b['random.seed'] = 5
    first = m.parameters.init_params(write(tmp, a), '{"x": 7, "w": 1}')
    copy = json.loads(json.dumps(first))
    m.parameters.init_params(write(tmp, b, 'q.yaml'), ch.choose(('', '{}')))
    if m.parameters.params != b:
        raise Violation('parameters %s, expected %s' % (m.parameters.params, b))
    if first != copy:
        raise Violation('the parameters returned have become %s' % first)
    ch.step()


def _dump(m, rank, comm, ch, tmp):
    d = choose_params(ch)
    s = ch.choose(({}, {'x': [1.5, {'a': None}]}, {'q': 'é', 'y': -1}))
    p = write(tmp, d)
    taken = {}
    for i in range(2):
        if ch.pick(2):
            n = 'd_%d.yaml' % i if i else 'd.yaml'
            taken[n] = 'k: %d' % i
            with open(os.path.join(tmp, n), 'w') as f:
                f.write(taken[n])
    got = m.parameters.init_params(p, json.dumps(s), os.path.join(tmp, 'd.yaml'))
    for n, t in taken.items():
        if open(os.path.join(tmp, n)).read() != t:
            raise Violation('%s has been overwritten' % n)
    new = [n for n in sorted(os.listdir(tmp)) if n not in taken and n != 'p.yaml']
    want = next(n for n in ('d.yaml', 'd_1.yaml', 'd_2.yaml') if n not in taken)
    if new != [want]:
        raise Violation('dumped to %s, expected %s' % (new, want))
    w = dict(d, **s)
    back = yaml.safe_load(open(os.path.join(tmp, want))) or {}
    if back != w or got != w:
        raise Violation('parameters %s, dumped %s, expected %s' % (got, back, w))
    ch.step()


def _parser(m, rank, comm, ch):
    args = ch.choose((['f.yaml'], ['f.yaml', '{"x": 1}'], ['f', '']))
    a = m.parameters.create_args_parser().parse_args(args)
    if a.parameters_file != args[0] or a.parameters != (args[1] if len(args) > 1 else '{}'):
        raise Violation('%s is parsed as %s' % (args, a))
    ch.step()


def _seeds(m, rank, comm, seqs, ch):
    nums = {}
    for s in seqs:
        m.random.init(s)
        if m.random.seed != s:
            raise Violation('seed %s after init(%s)' % (m.random.seed, s))
        v = (list(m.random.default_rng.integers(0, 10 ** 9, 5)), torch.rand(3).tolist())
        if nums.setdefault(s, v) != v:
            raise Violation('seed %s gives %s and %s' % (s, nums[s], v))
        if v[0] != list(np.random.default_rng(s).integers(0, 10 ** 9, 5)):
            raise Violation('seed %s does not give the numbers of numpy.random.default_rng' % s)
    for (a, x), (b, y) in itertools.combinations(nums.items(), 2):
        if x[0] == y[0] or x[1] == y[1]:
            raise Violation('seeds %s and %s give the same numbers' % (a, b))


def _fresh(m, rank, comm, calls):
    """the generator without a seed: usable at once, seeded with the time"""
    spec = importlib.util.spec_from_file_location('fresh_random', m.random.__file__)
    r = importlib.util.module_from_spec(spec)
    t = int(time.time())
    spec.loader.exec_module(r)
    for c in ('import',) + calls:
        if c != 'import':
            r.init(*c)
        want = c[0] if c != 'import' and c and c[0] is not None else None
        if not isinstance(r.seed, int) or (r.seed != want if want is not None else not t <= r.seed <= time.time()):
            raise Violation('the seed is %s after %s' % (r.seed, c))
        if not matches(r.seed, r.default_rng):
            raise Violation('the generator does not give the numbers of its seed %s after %s' % (r.seed, c))
        got = torch.rand(3).tolist()
        torch.manual_seed(r.seed)
        if got != torch.rand(3).tolist():
            raise Violation('torch does not give the numbers of the seed %s after %s' % (r.seed, c))


def run(params, ch):
    kind = params[0]
    with tempfile.TemporaryDirectory(prefix='mc-c19-') as tmp:
        if kind == 'params':
            d = ch.choose((None, 0))
            if d == 0:
                d = choose_params(ch, params[1] > 1)
            s = choose_params(ch, d is not None and len(d) > 1) if d is None or len(d) < 3 else ch.choose(({}, {'x': 0}, {'random.seed': 11}, {'y': None, 'z': [], 'random.seed': 1}))
            string = ch.choose(('', '{}')) if not s else json.dumps(s)
            run_world(params[1], _params, write(tmp, d), string, dict(d or {}, **s), d)
        elif kind == 'programs':
            kinds = [ch.choose(Program.KINDS) for _ in range(params[2])]
            run_world(1, _programs, params[1], kinds, ch.choose((3, 2 ** 33)), tmp)
        elif kind == 'seeds':
            run_world(1, _seeds, [ch.choose(SEEDS) for _ in range(4)], ch)
        elif kind == 'fresh':
            calls = ((), (None,), (0,), (5,))
            run_world(1, _fresh, tuple(ch.choose(calls) for _ in range(ch.pick(3))))
        else:
            run_world(1, {'again': _again, 'dump': _dump}.get(kind, _parser), ch, *([tmp] if kind != 'parser' else []))
    ch.step()
    ch.state((params, tuple(ch.trace)))
