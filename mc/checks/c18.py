"""Networks written to and read from files: the partitioned file describes the
graph, the network read from it is the graph on all ranks, and goes on as such."""
import itertools
import json
import os
import sys
import tempfile
import types

import networkx as nx

from .. import worlds
from ..common import EnumRng, run_world
from ..engine import Violation
from ..worlds import Cfg
from .c06 import acts_on

ID = 'C18'
ASSUMPTIONS = ('networkx graphs without self loops, with integer nodes and attributes json can represent; the metis package is replaced by a stand-in that gives every partition',
               'network names without spaces; the ranks of the file exist')

ATTRS = [{}, {'a': 1}, {'a': 'x y'}, {'a': {'b': 2}}, {'a': {}}, {'a': '}'}, {'a': '{'}, {'a b': [1, {'c': None}]}, {'a': '"\\\n\t\'', 'b': -2.5e-3},
         {'é': 'ü ✓', 'c': True}, {'a': 'EDGES'}, {'': ''}, {'a': [], 'b': '# 1 2'}]


def graphs(n, directed):
    """all edge sets on n nodes"""
    pairs = [(i, j) for i in range(n) for j in range(n) if i < j or directed and i > j]
    for k in range(len(pairs) + 1):
        yield from itertools.combinations(pairs, k)


def items(tier):
    deep = tier == 'thorough'
    out = []
    for d in 'ud':
        # nodes, ranks
        for n, r in [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)] + ([(4, 2), (2, 4), (4, 1)] if deep or d == 'u' else []) + ([(4, 3), (4, 4)] if deep else []):
            out.append(('write-random-%s-n%d-r%d' % (d, n, r), ('write', d, n, r, 'random')))
            out.append(('write-metis-%s-n%d-r%d' % (d, n, r), ('write', d, n, r, 'metis')))
        out.append(('attributes-write-%s' % d, ('attrs', d, 'write')))
        for n in (1, 2):
            out.append(('attributes-read-%s-n%d' % (d, n), ('attrs', d, n)))
        for n, na, kinds, rounds in [(1, 3, '', 1), (2, 2, '', 2), (2, 3, '', 1), (3, 3, '', 1), (2, 2, 'g', 2), (2, 2, 'c', 1)] + (
                [(3, 3, 'g', 1), (2, 4, '', 1), (4, 3, '', 1), (2, 2, 'gc', 3), (2, 3, '', 2), (3, 3, '', 2)] if deep else []):
            # an edge may also be added or changed before the first synchronization
            few = not deep and d == 'd' and na > 2
            out.append(('read-%s-n%d-a%d-%s-r%d%s' % (d, n, na, kinds or 'none', rounds, '-few' if few else ''),
                        ('read', Cfg(n, (0, 2 * n, 0, 0, 0, 0), 0, 1, kinds + d, 'cache' if n == 3 else 'new', from_file=True), na, rounds, few)))
        out.append(('round-%s' % d, ('round', d)))
        for n, kinds, na in ((2, '', 20), (3, 'g', 60), (4, 'c', 30)) + (((7, '', 150),) if deep else ()):
            out.append(('wide-%s-n%d-a%d' % (d, n, na), ('wide', Cfg(n, (0, 2 * n, 0, 0, 0, 0), n == 3, 1, kinds + d, 'new', from_file=True), na)))
    out.append(('twice-n2', ('twice', 2)))
    out.append(('malformed', ('malformed',)))
    return out


def parse(text):
    """the file as documented -> name, directed, nodes [(id, type, rank, attributes)], edges"""
    lines = text.split('\n')
    if lines.pop() != '':
        raise Violation('no newline at the end of the file')
    name, d = lines[0].split(' ')
    e = lines.index('EDGES')

    def fields(s, n):
        w = s.split(' ', n)
        return tuple(int(x) for x in w[:n]) + (json.loads(w[n]) if len(w) > n else {},)
    return name, {'0': 'u', '1': 'd'}[d], [fields(s, 3) for s in lines[1:e]], [fields(s, 2) for s in lines[e + 1:]]


class Metis(types.ModuleType):
    """gives every partition"""

    def __init__(self, ch):
        super().__init__('nxmetis')
        self.ch = ch

    def partition(self, graph, nparts, **kw):
        if kw != {'option': 7}:
            raise Violation('the arguments of the partition function are %s' % kw)
        parts = [[] for _ in range(nparts)]
        for n in graph.nodes:
            parts[self.ch.pick(nparts)].append(n)
        return 0, parts


def write(m, ch, g, name, path, ranks, method):
    m.random.default_rng = rng = EnumRng(ch)
    if method == 'metis':
        sys.modules['nxmetis'] = Metis(ch)
        try:
            m.network.write_network(g, name, path, ranks, partition_method='metis', option=7)
        finally:
            del sys.modules['nxmetis']
    else:
        how = ch.pick(4)
        if how > 1:
            m.random.default_rng = None if how == 2 else rng
        m.network.write_network(g, name, path, ranks, **({}, {'partition_method': 'random'}, {'partition_method': 'random', 'rng': rng}, {'rng': 'default'})[how])


def check_file(path, g, name, ranks, method):
    text = open(path).read()
    try:
        nm, d, nodes, edges = parse(text)
    except (ValueError, KeyError) as e:
        raise Violation('the file is not as documented: %s: %r' % (e, text))
    if nm != name or d != ('d' if g.is_directed() else 'u'):
        raise Violation('network %s directed %s written as %s %s' % (name, g.is_directed(), nm, d))
    got = {}
    for i, t, r, a in nodes:
        if i in got:
            raise Violation('node %s is twice in the file' % i)
        if not 0 <= r < ranks:
            raise Violation('node %s is on rank %s of %d' % (i, r, ranks))
        got[i] = (t, a)
    want = {i: (int(a.get('agent_type', 0)), {k: v for k, v in a.items() if k != 'agent_type'}) for i, a in g.nodes(data=True)}
    if got != want:
        raise Violation('nodes in the file %s, in the graph %s' % (got, want))
    ge = [((u, v) if d == 'd' or u < v else (v, u), a) for u, v, a in edges]
    we = [((u, v) if d == 'd' or u < v else (v, u), a) for u, v, a in g.edges(data=True)]
    if sorted(ge, key=repr) != sorted(we, key=repr):
        raise Violation('edges in the file %s, in the graph %s' % (ge, we))
    per = [sum(x[2] == r for x in nodes) for r in range(ranks)]
    if method == 'random' and max(per) > -(-len(nodes) // ranks):
        raise Violation('%d nodes are distributed over the ranks as %s' % (len(nodes), per))
    return {x[0]: x[2] for x in nodes}


def make_graph(d, edges, nodes):
    g = nx.DiGraph() if d == 'd' else nx.Graph()
    for i, a in nodes:
        g.add_node(i, **a)
    for u, v, a in edges:
        g.add_edge(u, v, **a)
    return g


def _write(m, rank, comm, params, ch, tmp):
    _, d, n, ranks, method = params
    ids = list(range(n)) if ch.pick(2) else [7 * i + 3 if i else -1 for i in reversed(range(n))]
    es = list(graphs(n, d == 'd'))
    if n * ranks > (6 if d == 'u' else 5):
        # the partition does not depend on the edges
        es = [es[0], es[-1], es[len(es) // 2]]
    e = ch.choose(es)
    nodes = [(i, dict(({'agent_type': (2, '1', 0)[k % 3]} if k % 4 < 3 and k else {}), **({'x': k} if k % 2 else {}))) for k, i in enumerate(ids)]
    edges = [(ids[u], ids[v], {'w': k} if k % 2 else {}) for k, (u, v) in enumerate(e)]
    g = make_graph(d, edges, nodes)
    copy = make_graph(d, edges, nodes)
    path = os.path.join(tmp, 'net')
    write(m, ch, g, 'net', path, ranks, method)
    check_file(path, g, 'net', ranks, method)
    if dict(g.nodes(data=True)) != dict(copy.nodes(data=True)) or list(g.edges(data=True)) != list(copy.edges(data=True)):
        raise Violation('the graph has changed: %s' % g.nodes(data=True))
    ch.step()


def _attrs(m, rank, comm, d, ch, tmp):
    a = ch.choose(ATTRS)
    g = make_graph(d, [(1, 2, a), (0, 2, {})], [(0, a), (1, {'agent_type': 1}), (2, dict(a, agent_type=2))])
    path = os.path.join(tmp, 'net')
    write(m, ch, g, 'net', path, 1, 'random')
    check_file(path, g, 'net', 1, 'random')
    ch.step()


def _text(nodes, edges, name, d, style):
    sp, eol = (' ', '\n') if style == 0 else ('  ', '\r\n') if style == 1 else ('\t', ' \n')
    out = '%s %d%s' % (name, d == 'd', '\n')
    for (i, t, r), a in nodes:
        out += sp.join([str(i), str(t), str(r)] + ([json.dumps(a)] if a or style == 2 else [])) + eol
    out += 'EDGES' + eol
    for u, v, a in edges:
        out += sp.join([str(u), str(v)] + ([json.dumps(a, separators=((' , ', ' : ') if style == 1 else (',', ':')))] if a or style == 2 else [])) + eol
    return out


def read_step(nodes, edges, net, path):
    """the step of the script: attributes as strings"""
    uid = {u[0]: u for u, _ in nodes}
    return [], ('read', net, tuple((u, json.dumps(a, sort_keys=True)) for u, a in nodes), tuple((uid[u], uid[v], a) for u, v, a in edges), path)


def _read(params, ch, tmp):
    _, cfg, na, rounds, few = params
    net = cfg.nets[0]
    ranks = cfg.n if cfg.n > 1 else 2
    nodes = [((10 - i, i % 2, ch.pick(ranks)), {'x': i} if i % 2 else {}) for i in range(na)]
    e = ch.choose([x for x in graphs(na, net == 'd') if not few or len(x) < (3 if cfg.n == 3 else 4)])
    # in any order of the ends
    edges = [((10 - u, 10 - v) if k % 2 == 0 or net == 'd' else (10 - v, 10 - u)) + ({'w': 10 * u + v} if k % 3 < 2 else {},) for k, (u, v) in enumerate(e)]
    path = os.path.join(tmp, 'friends-1')
    with open(path, 'w', newline='') as f:
        f.write(_text(nodes, edges, 'friends', net, ch.pick(2) if rounds < 2 and not few else 0))

    def gen(model, ch, i):
        us = sorted(model.rank)
        if i == 0:
            return read_step(nodes, edges, net, path)
        ops = [('set', u, 1000 * i + u[0]) for u in us]
        if not us or i > rounds:
            return None
        acts = []
        if cfg.spaces:
            acts += [('mv', u, (c,)) for u in us for c in cfg.cells()]
        snap = model.snapshot()
        for r in range(cfg.n):
            acts += [a + ({'y': i},) if a[0] in ('edge', 'upd') else a for a in acts_on(snap, snap, r, net, {})]
        acts += [('rm', u) for u in us] + [('moveto', u, r) for u in us for r in range(cfg.n) if r != model.rank[u]]
        a = ch.choose(acts) if acts else None
        if a is None:
            return None
        if a[0] == 'moveto':
            return ops, ('moveto', (a[1:],))
        return ops + [a], ('sync',)
    worlds.run_script(cfg, ch, gen)


def _wide(params, ch, tmp):
    """a graph of many nodes and edges, then some rounds in which all change"""
    _, cfg, na = params
    net = cfg.nets[0]
    p, q = 1 + ch.pick(5), ch.pick(3)
    ids = [(i * 37 + 5) % 1009 for i in range(na)]
    nodes = [{'agent_type': i * p % 3, 'x': i} if i % 4 else {} for i in range(na)]
    edges = {}
    for i in range(na):
        for j in (i + 1, i * p + 3, i + na // 2 + q):
            u, v = ids[i], ids[j % na]
            if u != v and (net == 'd' or (v, u) not in edges):
                edges[u, v] = {'w': i} if i % 3 else {}
    g = make_graph(net, [e + (a,) for e, a in edges.items()], list(zip(ids, nodes)))
    path = os.path.join(tmp, 'net-1')
    ranks = []

    def body(m, rank, comm):
        write(m, Fixed(p), g, 'net', path, cfg.n, ('random', 'metis')[q % 2])
        ranks.append(check_file(path, g, 'net', cfg.n, ('random', 'metis')[q % 2]))
    run_world(1, body)
    # as in the file
    _, _, ns, es = parse(open(path).read())
    spec = [((i, t, r), a) for i, t, r, a in ns]
    rest = worlds.wide(cfg, na, 7)
    rest.p, rest.q = p, q
    worlds.run_script(cfg, ch, lambda model, ch, i: read_step(spec, es, net, path) if i == 0 else rest(model, ch, i) if i < 8 else None)


class Fixed:
    """draws by a rule"""

    def __init__(self, p):
        self.p, self.k = p, 0

    def pick(self, n):
        self.k += self.p
        return self.k % n


def _round(d, ch, tmp):
    """written by one process, read by the ranks"""
    n = 2
    e = ch.choose(list(graphs(3, d == 'd')))
    nodes = [(5, {'agent_type': 1}), (0, {'a': 'b c'}), (2, {'agent_type': 0, 'a': {'b': [1]}})]
    edges = [(nodes[u][0], nodes[v][0], {'w': u} if v % 2 else {}) for u, v in e]
    g = make_graph(d, edges, nodes)
    path = os.path.join(tmp, 'net-1')
    got = []

    def body(m, rank, comm):
        write(m, ch, g, 'net', path, n, 'random')
        got.append(check_file(path, g, 'net', n, 'random'))
    run_world(1, body)
    spec = [((i, a.get('agent_type', 0), got[0][i]), {k: v for k, v in a.items() if k != 'agent_type'}) for i, a in nodes]
    worlds.run_script(Cfg(n, (0, 4, 0, 0, 0, 0), kinds=d, from_file=True), ch, lambda model, ch, i: read_step(spec, edges, d, path) if i == 0 else None)


def _twice(n, ch, tmp):
    """two networks of the same or of different agents, from two files"""
    kinds = ch.choose(('ud', 'du'))
    nodes = {k: [((20 * j + i, j, ch.pick(n)), {}) for i in range(2)] for j, k in enumerate(kinds)}
    edges = {k: [(nodes[k][0][0][0], nodes[k][1][0][0], {'w': k})] for k in kinds}
    for k in kinds:
        with open(os.path.join(tmp, k + '-1'), 'w') as f:
            f.write(_text(nodes[k], edges[k], k, k, 0))

    def gen(model, ch, i):
        us = sorted(model.rank)
        if i < 2:
            return read_step(nodes[kinds[i]], edges[kinds[i]], kinds[i], os.path.join(tmp, kinds[i] + '-1'))
        if i == 2:
            return [], ('moveto', tuple((u, r) for u, r in ((u, ch.pick(n)) for u in us) if r != model.rank[u]))
        if i == 3:
            return [('rm', ch.choose(us))], ('sync',)
        return None
    # check_net looks at networks only once read
    worlds.run_script(Cfg(n, (0, 2 * n, 0, 0, 0, 0), kinds=kinds, from_file=True), ch, gen)


def _malformed(m, rank, comm, ch, tmp):
    """a line that is not as documented is reported, with its number"""
    good = ['net 0', '1 0 0 {"a": 1}', '2 1 0', 'EDGES', '1 2 {"w": {"x": 1}}', '2 1']
    bad = {0: ['net', 'net x', 'net 0 1', ''], 1: ['1 0', '1', 'a 0 0', '1 b 0', '1 0 c', '1 0 0 {"a": 1', '1 0 0 [1]', '1 0 0 {"a": 1} 2', '1 0 0 7 8', '1.5 0 0', '1 0 0 x'],
           4: ['1', 'a 2', '1 b', '1 2 {"w"}', '1 2 3 4', '1 2 [1]', '1 2 {"w": 1} {"v": 2}', '1 3', '3 1', '1 2 {'], 5: ['2', '2 7', '2 1 {}}', '1 2 0.5']}
    k = ch.choose([None] + sorted(bad))
    lines = list(good)
    if k is not None:
        lines[k] = ch.choose(bad[k])
    path = os.path.join(tmp, 'net')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    ctx = m.context.SharedContext(comm)
    A = worlds.agent_class(m)
    err = None
    try:
        m.network.read_network(path, ctx, lambda i, t, r, **a: A(i, t, r, a), None)
    except ValueError as e:
        err = str(e)
    ch.step()
    if k is None and err is not None:
        raise Violation('%s is not read: %s' % (lines, err))
    if k is not None and (err is None or 'line %d' % (k + 1) not in err):
        raise Violation('%s is read: %s' % (lines, err or 'no error'))


def run(params, ch):
    with tempfile.TemporaryDirectory(prefix='mc-c18-') as tmp:
        if params[0] == 'write':
            run_world(1, _write, params, ch, tmp)
        elif params[0] == 'attrs' and params[2] == 'write':
            run_world(1, _attrs, params[1], ch, tmp)
        elif params[0] == 'attrs':
            d, n = params[1:]
            x, y = ch.choose(ATTRS), ch.choose(ATTRS)
            nodes = [((1, 0, 0), x), ((2, 1, n - 1), {}), ((3, 0, n - 1), x)]
            edges = [(1, 2, y), (3, 1, {}), (3, 2, y)]
            path = os.path.join(tmp, 'net-1')
            with open(path, 'w', newline='', encoding='utf-8') as f:
                f.write(_text(nodes, edges, 'net', d, ch.pick(3)))
            worlds.run_script(Cfg(n, (0, 4, 0, 0, 0, 0), kinds=d, from_file=True), ch, lambda model, ch, i: read_step(nodes, edges, d, path) if i == 0 else None)
        elif params[0] == 'wide':
            _wide(params, ch, tmp)
        elif params[0] == 'read':
            _read(params, ch, tmp)
        elif params[0] == 'round':
            _round(params[1], ch, tmp)
        elif params[0] == 'twice':
            _twice(params[1], ch, tmp)
        else:
            run_world(1, _malformed, ch, tmp)
