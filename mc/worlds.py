"""A model of several ranks sharing a context: what a script of moves, state
changes, additions, removals, requests and synchronizations must leave behind
on every rank. The scripts are enumerated; every rank executes its part on the
real code and compares what it can observe with the model after each
synchronization."""
import gc
import itertools
import json
import os
import weakref

from .common import run_world
from .engine import Violation


class Cfg:
    """n ranks, global box, periodic borders, buffer size, projections ('g',
    'c', or networks: 'u' undirected, 'd' directed), restore: 'new' or 'cache' (whether the restore function
    returns a new object every time or keeps one object per agent)"""

    def __init__(self, n, box, per=0, buf=1, kinds='g', restore='new', single=0, frac=0.25, from_file=False, late='', cbuf=None):
        self.n, self.box, self.per, self.buf, self.kinds, self.restore, self.single = n, box, per, buf, kinds, restore, single
        self.frac = frac    # a continuous location is its cell plus this
        self.from_file = from_file  # networks are read from files
        self.cbuf = buf if cbuf is None else cbuf   # buffer of the continuous space
        self.late = late    # projections of kinds that are added only by the script
        self.dims = 1 + (box[3] > 0) + (box[5] > 0)
        self.spaces = [k for k in kinds if k in 'gc']
        self.nets = [k for k in kinds if k in 'ud']

    def __repr__(self):
        return 'ranks=%d box=%s %s buffer=%s projections=%s restore=%s' % (
            self.n, self.box, 'periodic' if self.per else 'sticky', self.buf if self.cbuf == self.buf else (self.buf, self.cbuf), self.kinds, self.restore)

    def cells(self):
        b = self.box
        return list(itertools.product(*[range(b[2 * d], b[2 * d] + max(1, b[2 * d + 1])) for d in range(3)]))


tracking = False    # whether agent objects that remain are looked for (C21)


class Model:
    def __init__(self, cfg, bounds):
        self.cfg, self.bounds = cfg, bounds
        self.rank = {}      # alive agents: uid -> rank where local
        self.state = {}
        self.loc = {}       # uid -> cell, absent: no location
        self.req = set()    # (rank, uid) requested and not local there since
        self.maybe = set()  # (rank, uid): whether still a ghost is left open
        self.edges = {k: {} for k in cfg.nets}  # network -> (u, v) -> attributes
        self.saved = None

    def ekey(self, net, u, v):
        return (u, v) if net == 'd' or u <= v else (v, u)

    def linked(self, k):
        """agents of other ranks with an edge to an agent of rank k"""
        out = set()
        for es in self.edges.values():
            for u, v in es:
                for a, b in ((u, v), (v, u)):
                    if self.rank[a] == k and self.rank[b] != k:
                        out.add(b)
        return out

    def owner(self, cell):
        own = [k for k, b in enumerate(self.bounds) if all(
            b[2 * d] <= cell[d] < b[2 * d] + b[2 * d + 1] for d in range(self.cfg.dims))]
        if len(own) != 1:
            raise Violation('%s: cell %s is in the local bounds of ranks %s' % (self.cfg, cell, own))
        return own[0]

    def buffered(self, k, cell, kinds=None):
        """whether the cell is in rank k's buffer (in one of the spaces)"""
        c = self.cfg
        buf = max([c.cbuf if s == 'c' else c.buf for s in kinds or c.spaces])
        if buf == 0 or self.owner(cell) == k:
            return False
        b = self.bounds[k]
        for d in range(c.dims):
            lo, ext = b[2 * d], b[2 * d + 1]
            e = c.box[2 * d + 1]
            if not any(lo - buf <= cell[d] + s < lo + ext + buf for s in ((0, e, -e) if c.per else (0,))):
                return False
        return True

    def ghosts(self, k):
        """-> ({uid: located}, {uid} left open)"""
        out = {}
        linked = self.linked(k)
        for u, r in self.rank.items():
            if r == k:
                continue
            if u in self.loc and self.buffered(k, self.loc[u]):
                out[u] = True
            elif (k, u) in self.req or u in linked:
                out[u] = False
        return out, {u for kk, u in self.maybe if kk == k and u in self.rank and self.rank[u] != k and u not in out}

    # -- transitions
    def settle(self):
        """agents go where their location is"""
        for u, cell in self.loc.items():
            self.goto(u, self.owner(cell))

    def goto(self, u, r):
        if self.rank[u] == r:
            return
        if (r, u) in self.req:
            self.req.discard((r, u))
            self.maybe.add((r, u))
        self.rank[u] = r

    def drop(self, u):
        del self.rank[u], self.state[u]
        self.loc.pop(u, None)
        self.req = {x for x in self.req if x[1] != u}
        self.maybe = {x for x in self.maybe if x[1] != u}
        for k, es in self.edges.items():
            self.edges[k] = {e: a for e, a in es.items() if u not in e}

    def snapshot(self):
        m = Model(self.cfg, self.bounds)
        m.rank, m.state, m.loc, m.req, m.maybe = dict(self.rank), dict(self.state), dict(self.loc), set(self.req), set(self.maybe)
        m.edges = {k: dict(es) for k, es in self.edges.items()}
        return m

    def key(self):
        return (tuple(sorted(self.rank.items())), tuple(sorted(self.state.items())), tuple(sorted(self.loc.items())),
                tuple(sorted(self.req)), tuple(sorted(self.maybe)),
                tuple((k, tuple(sorted((e, repr(sorted(a.items()))) for e, a in es.items()))) for k, es in sorted(self.edges.items())))


def agent_class(m, _cls={}):
    c = _cls.get(id(m))
    if c is None:
        class A(m.core.Agent):
            alive = weakref.WeakSet()

            def __init__(self, id, type, rank, state=0):
                super().__init__(id=id, type=type, rank=rank)
                self.state = state
                if tracking:
                    A.alive.add(self)

            def save(self):
                return (self.uid, self.state)

            def update(self, state):
                self.state = state
        c = _cls[id(m)] = A
    return c


class Rank:
    """one rank's side: the real context and projections"""

    def __init__(self, m, rank, comm, cfg, projs=True):
        self.m, self.rank, self.comm, self.cfg = m, rank, comm, cfg
        self.A = agent_class(m)
        self.A.alive.clear()
        self.ctx = m.context.SharedContext(comm)
        self.projs = {}
        self.cache = {}
        self.saved = None
        if projs:
            for k in cfg.kinds:
                if k not in cfg.late and (k not in 'ud' or not cfg.from_file):
                    self.add_proj(k)

    def read(self, coll):
        _, net, nodes, edges, path = coll
        made = []

        def create(node_id, agent_type, rank, **attribs):
            a = self.A(node_id, agent_type, rank, json.dumps(attribs, sort_keys=True))
            made.append(a.uid)
            return a
        self.m.network.read_network(path, self.ctx, create, self.restore)
        want = [u for u, _ in nodes if self.cfg.n == 1 or u[2] == self.rank]
        if made != want:
            raise Violation('rank %d: agents %s created, expected %s' % (self.rank, made, want))
        name = os.path.basename(path).split('-')[0]
        self.projs[net] = p = self.ctx.get_projection(name)
        if p.name != name or p.is_directed != (net == 'd'):
            raise Violation('rank %d: network %s is read as %s, directed: %s' % (self.rank, name, p.name, p.is_directed))

    def add_proj(self, k):
        m, cfg, comm = self.m, self.cfg, self.comm
        sp = m.space
        bb = m.geometry.BoundingBox(*cfg.box)
        bt = sp.BorderType.Periodic if cfg.per else sp.BorderType.Sticky
        oc = sp.OccupancyType.Single if cfg.single else sp.OccupancyType.Multiple
        if k == 'g':
            p = sp.SharedGrid('grid', bb, bt, oc, cfg.buf, comm)
        elif k == 'u':
            p = m.network.UndirectedSharedNetwork('undirected', comm)
        elif k == 'd':
            p = m.network.DirectedSharedNetwork('directed', comm)
        else:
            p = sp.SharedCSpace('space', bb, bt, oc, cfg.cbuf, comm, tree_threshold=1)
        self.ctx.add_projection(p)
        self.projs[k] = p

    def checkpoint(self, mode):
        c = self.m.checkpoint.Checkpoint()
        c.save_agents(self.ctx.agents())
        for k, p in self.projs.items():
            if k in 'gc':
                c.save_space(self.ctx, p)
            else:
                c.save_network(p, self.rank)
        import dill
        return dill.dumps(c) if 'pickle' in mode else c

    def restored(self, c, mode):
        import dill
        if 'pickle' in mode:
            c = dill.loads(c)
        new = Rank(self.m, self.rank, self.comm, self.cfg, False)

        def agents():
            # in the order of the original, whatever their ranks of origin
            for a in c.restore_agents(new.restore):
                new.ctx.add(a)

        def restore(k):
            if k in 'gc':
                c.restore_space(new.ctx, new.projs[k])
            else:
                c.restore_network(new.ctx, new.projs[k], new.restore)
        kinds = list(self.cfg.kinds)
        if 'agents' in mode:
            # the projections are added to a context which has the agents, one after the other
            agents()
            for k in kinds:
                new.add_proj(k)
                restore(k)
        elif 'last' in mode:
            for k in kinds:
                new.add_proj(k)
            agents()
            for k in reversed(kinds):
                restore(k)
        else:
            for k in kinds:
                new.add_proj(k)
            agents()
            for k in kinds:
                restore(k)
        return new

    def local_bounds(self):
        p = next(p for k, p in self.projs.items() if k in 'gc')
        return tuple(p.get_local_bounds())

    def restore(self, data):
        uid, state = data[0], data[1]
        if self.cfg.restore == 'cache':
            a = self.cache.get(uid)
            if a is None:
                a = self.cache[uid] = self.A(uid[0], uid[1], uid[2])
            a.state = state
            return a
        return self.A(uid[0], uid[1], uid[2], state)

    def move(self, a, cell):
        for k, p in self.projs.items():
            if k in 'ud':
                continue
            if k == 'g':
                r = p.move(a, self.m.space.DiscretePoint(*cell))
            else:
                r = p.move(a, self.m.space.ContinuousPoint(*[v + self.cfg.frac if d < self.cfg.dims else v for d, v in enumerate(cell)]))
            if r is None:
                raise Violation('move of %s to %s refused' % (a.uid, cell))

    def do(self, op):
        """an operation on a local agent"""
        kind, u = op[0], op[1]
        if kind == 'add':
            a = self.A(u[0], u[1], u[2], op[3])
            self.ctx.add(a)
            if op[2] is not None:
                self.move(a, op[2])
            return
        if kind in ('edge', 'upd', 'cut', 'clear'):
            self.net_op(op)
            return
        a = self.ctx.agent(u)
        if a is None:
            raise Violation('rank %d: local agent %s not in the context' % (self.rank, u))
        if kind == 'mv':
            for cell in op[2]:
                self.move(a, cell)
        elif kind == 'set':
            a.state = op[2]
        elif kind == 'rm':
            self.ctx.remove(a)

    def net_op(self, op):
        kind, _, net = op[0], op[1], self.projs[op[2]]
        if kind == 'clear':
            net.clear_edges()
            if net.edge_count != 0:
                raise Violation('rank %d: %d edges after clear_edges' % (self.rank, net.edge_count))
            return
        u, v = [self.ctx.agent(x) or self.ctx.ghost_agent(x) for x in op[3:5]]
        if u is None or v is None:
            raise Violation('rank %d: agent %s neither local nor a ghost' % (self.rank, op[3] if u is None else op[4]))
        if kind == 'edge':
            net.add_edge(u, v, **op[5])
        elif kind == 'upd':
            net.update_edge(u, v, **op[5])
        else:
            net.remove_edge(u, v)
        if net.contains_edge(u, v) != (kind != 'cut'):
            raise Violation('rank %d: contains_edge(%s, %s) gives %s after %s' % (self.rank, op[3], op[4], net.contains_edge(u, v), kind))
        if kind != 'cut' and not op[5].items() <= dict(net.graph.edges[u, v]).items():
            raise Violation('rank %d: edge %s-%s has attributes %s after %s of %s' % (self.rank, op[3], op[4], net.graph.edges[u, v], kind, op[5]))

    def check_net(self, model, kind, p):
        """the edges that involve a local agent, with the same attributes everywhere"""
        ctx, k = self.ctx, self.rank
        what = 'rank %d: %s network' % (k, p.name)
        nodes = {}
        for a in p:
            if a.uid in nodes:
                raise Violation('%s contains agent %s twice' % (what, a.uid))
            nodes[a.uid] = a
            real = ctx.agent(a.uid) or ctx.ghost_agent(a.uid)
            if a is not real:
                raise Violation('%s: node %s is not the agent in the context (%s)' % (what, a.uid, real))
        for u, r in model.rank.items():
            a = ctx.agent(u) or ctx.ghost_agent(u)
            if a is not None and (a in p) != (u in nodes):
                raise Violation('%s: whether it contains %s is given as %s' % (what, u, a in p))
            if r == k and u not in nodes:
                raise Violation('%s: local agent %s is not a node' % (what, u))
        want = {e: a for e, a in model.edges[kind].items() if k in (model.rank[e[0]], model.rank[e[1]])}
        got = {}
        for u, v, d in p.graph.edges(data=True):
            got[model.ekey(kind, u.uid, v.uid)] = dict(d)
        if got != want:
            raise Violation('%s has edges %s, expected %s' % (what, sorted(got.items()), sorted(want.items())))
        if p.edge_count != len(want) or p.node_count != len(nodes):
            raise Violation('%s: edge_count %d and node_count %d, expected %d and %d' % (what, p.edge_count, p.node_count, len(want), len(nodes)))
        for u, a in nodes.items():
            n = sum(u in e for e in want)
            # (an edge from an agent to itself may count as one or, if directed, as two)
            if p.num_edges(a) not in (n, n + (kind == 'd' and (u, u) in want)):
                raise Violation('%s: num_edges(%s) gives %d, expected %d' % (what, u, p.num_edges(a), n))
            for v, b in nodes.items():
                if p.contains_edge(a, b) != (model.ekey(kind, u, v) in want):
                    raise Violation('%s: contains_edge(%s, %s) gives %s' % (what, u, v, p.contains_edge(a, b)))

    def check_released(self, uids):
        """no objects of agents that are neither local nor ghosts remain"""
        have = [a for u in uids for a in (self.ctx.agent(u), self.ctx.ghost_agent(u)) if a is not None]
        if len(self.A.alive) != len(have):
            gc.collect()
        extra = [a.uid for a in self.A.alive if not any(a is x for x in have)]
        if extra:
            raise Violation('rank %d: objects of agents %s, neither local nor ghosts, remain' % (self.rank, sorted(extra)))

    def check(self, model, ghosts=True, uids=()):
        ctx, k, cfg = self.ctx, self.rank, self.cfg
        want = {u: model.state[u] for u, r in model.rank.items() if r == k}
        got = {}
        for a in ctx.agents():
            if a.uid in got:
                raise Violation('agent %s is twice in rank %d' % (a.uid, k))
            got[a.uid] = a.state
            if a.local_rank != k:
                raise Violation('agent %s, local on rank %d, has local rank %s' % (a.uid, k, a.local_rank))
        if got != want:
            raise Violation('rank %d has local agents %s, expected %s' % (k, got, want))
        if ctx.size()[-1] != len(want):
            raise Violation('rank %d: size %s, expected %d' % (k, ctx.size(), len(want)))
        for t in {u[1] for u in uids}:
            mine = sorted(u for u in want if u[1] == t)
            if bool(ctx.contains_type(t)) != bool(mine):
                raise Violation('rank %d: contains_type(%d) gives %s with agents %s' % (k, t, ctx.contains_type(t), sorted(want)))
            if mine:
                g = sorted(a.uid for a in ctx.agents(t))
                if g != mine or ctx.size([t]) != {t: len(mine)}:
                    raise Violation('rank %d: agents of type %d: %s, size %s, expected %s' % (k, t, g, ctx.size([t]), mine))
        for u in uids:
            a = ctx.agent(u)
            if (a is not None) != (u in want):
                raise Violation('rank %d: agent(%s) gives %s' % (k, u, a))
        if tracking and ghosts:
            self.check_released(uids)
        local = {u: model.loc[u] for u in want if u in model.loc}
        gh, maybe = model.ghosts(k)
        if ghosts:
            for u in uids:
                g = ctx.ghost_agent(u)
                if u in maybe and g is None:
                    continue
                if (g is not None) != (u in gh or u in maybe):
                    raise Violation('rank %d: ghost_agent(%s) gives %s, expected %s' % (k, u, g, 'a ghost' if u in gh else 'none'))
                if g is not None and g.state != model.state[u]:
                    raise Violation('rank %d: the ghost of %s has state %s, the agent has %s' % (k, u, g.state, model.state[u]))
                if g is not None and g.local_rank != model.rank[u]:
                    raise Violation('rank %d: the ghost of %s has local rank %s, the agent is on %s' % (k, u, g.local_rank, model.rank[u]))
        for kind, p in self.projs.items():
            if kind in 'ud':
                if ghosts:
                    self.check_net(model, kind, p)
                continue
            f = 0 if kind == 'g' else cfg.frac
            locs = dict(local)
            if ghosts:
                locs.update((u, model.loc[u]) for u, located in gh.items() if located and model.buffered(k, model.loc[u], kind))
            for u, r in model.rank.items():
                a = ctx.agent(u) if r == k else ctx.ghost_agent(u) if ghosts and u in gh else None
                if a is None:
                    continue
                pt = p.get_location(a)
                cell = locs.get(u)
                w = None if cell is None else tuple(v + f if d < cfg.dims else v for d, v in enumerate(cell))
                g = None if pt is None else (pt.x, pt.y, pt.z)
                if g != w:
                    raise Violation('rank %d: location of %s in %s: %s, expected %s' % (k, u, p.name, g, w))
            if not ghosts:
                continue
            if kind == 'g':
                seen = {}
                for cell in cfg.cells():
                    for a in p.get_agents(self.m.space.DiscretePoint(*cell)):
                        seen.setdefault(cell, []).append(a)
            else:
                seen = {}
                for a in p.get_agents_within(self.m.geometry.BoundingBox(*cfg.box)):
                    pt = p.get_location(a)
                    seen.setdefault((int(pt.x // 1), int(pt.y // 1), int(pt.z // 1)), []).append(a)
            w = {}
            for u, cell in locs.items():
                w.setdefault(cell, []).append(u)
            g = {c: sorted(a.uid for a in v) for c, v in seen.items()}
            w = {c: sorted(v) for c, v in w.items()}
            if g != w:
                raise Violation('rank %d: %s holds %s, expected %s' % (k, p.name, g, w))
            for c, v in seen.items():
                for a in v:
                    real = ctx.agent(a.uid) or ctx.ghost_agent(a.uid)
                    if a is not real:
                        raise Violation('rank %d: the agent %s in %s is not the one in the context' % (k, a.uid, p.name))


class Script:
    """steps generated on demand by whichever rank gets there first"""

    def __init__(self, ch, gen):
        self.ch, self.gen = ch, gen
        self.steps = []
        self.done = self.probed = False
        self.model = None
        self.uids = set()

    def get(self, i):
        while len(self.steps) <= i and not self.done:
            s = None if self.probed else self.gen(self.model, self.ch, len(self.steps))
            if s is None:
                if self.probed or not self.model.rank:
                    self.done = True
                    break
                # at last, new states for all: whatever tracks the ghosts must still do so
                self.probed = True
                s = [('set', u, 9000 + j) for j, u in enumerate(sorted(self.model.rank))], ('sync',)
            fresh = self.ch.fresh()
            who = apply(self.model, s)
            self.uids |= set(self.model.rank)
            self.steps.append((s, who, self.model.snapshot(), fresh, set(self.uids)))
            self.ch.step()
            self.ch.state(self.model.key())
        return self.steps[i] if i < len(self.steps) else None


def apply(model, s):
    """the effect of a step on the model -> who executes each operation.
    A step: (operations, collective) with collective one of ('sync',),
    ('nosync',) [movement only], ('request', ((rank, uid)...)), ('moveto', ((uid, rank)...)),
    ('ckpt', mode), ('save', mode), ('back', mode), ('proj', kind)"""
    ops, coll = s
    who = []
    moved = {}
    w0 = dict(model.rank)
    for op in ops:
        kind, u = op[0], op[1]
        if kind == 'add':
            who.append(u[2])
            model.rank[u], model.state[u] = u[2], op[3]
            if op[2] is not None:
                model.loc[u] = op[2]
            continue
        if kind in ('edge', 'upd', 'cut', 'clear'):
            net = op[2]
            es = model.edges[net]
            who.append(u)
            if kind == 'clear':
                model.edges[net] = {e: a for e, a in es.items() if u not in (model.rank[e[0]], model.rank[e[1]])}
                continue
            key = model.ekey(net, op[3], op[4])
            if kind == 'cut':
                del es[key]
            else:
                es[key] = dict(es.get(key, {}), **op[5])
            continue
        who.append(model.rank[u])
        if kind == 'mv':
            model.loc[u] = target(model.cfg, op[2][-1])
        elif kind == 'set':
            model.state[u] = op[2]
        elif kind == 'rm':
            model.drop(u)
    if coll[0] == 'moveto':
        for u, r in coll[1]:
            moved[u] = model.rank[u]
            if model.rank[u] != r or True:
                model.loc.pop(u, None)
            model.goto(u, r)
        model.settle()
    elif coll[0] in ('request', 'request+sync'):
        for k, u in coll[1]:
            model.req.add((k, u))
            model.maybe.discard((k, u))
        if coll[0] == 'request+sync':
            model.settle()
    elif coll[0] in ('sync', 'nosync'):
        model.settle()
    elif coll[0] == 'read':
        # ('read', network, ((uid, attributes as a string)...), ((u, v, attributes)...), path)
        for u, a in coll[2]:
            model.rank[u], model.state[u] = u[2] if model.cfg.n > 1 else 0, a
        for u, v, a in coll[3]:
            model.edges[coll[1]][model.ekey(coll[1], u, v)] = dict(a)
        # the ghosts of the edges have been requested
        model.maybe |= {(k, u) for k in range(model.cfg.n) for u in model.linked(k)}
    elif coll[0] in ('ckpt', 'save', 'back'):
        # ('ckpt', mode): the simulation is saved and restored; 'save': saved, to be restored later by 'back'
        if coll[0] != 'ckpt' or 'synced' in coll[1]:
            model.settle()
        if coll[0] == 'save':
            model.saved = model.snapshot()
            model.saved.saved = None
        elif coll[0] == 'back':
            o = model.saved.snapshot()
            model.rank, model.state, model.loc, model.edges = o.rank, o.state, o.loc, o.edges
        if coll[0] != 'save':
            # requests are not saved
            model.req, model.maybe = set(), set()
            model.settle()
            # the agents the networks are restored with have been requested
            model.maybe = {(k, u) for k in range(model.cfg.n) for u in model.linked(k)}
    return who, moved, w0


def target(cfg, cell):
    out = []
    for d in range(3):
        lo, ext = cfg.box[2 * d], cfg.box[2 * d + 1]
        v = cell[d]
        if ext == 0:
            out.append(lo)
        elif cfg.per:
            out.append(lo + (v - lo) % ext)
        else:
            out.append(max(lo, min(lo + ext - 1, v)))
    return tuple(out)


def _prog(m, rank, comm, cfg, script, init, sess):
    r = Rank(m, rank, comm, cfg)
    sess.setdefault('bounds', {})[rank] = r.local_bounds() if cfg.spaces else None
    comm.Barrier()
    if script.model is None:
        script.model = Model(cfg, [sess['bounds'][k] for k in range(cfg.n)])
    i = 0
    while True:
        st = script.get(i)
        if st is None:
            return None
        (ops, coll), (who, moved, w0), snap, fresh, uids = st
        for op, w in zip(ops, who):
            if w == rank:
                r.do(op)
        if coll[0] == 'sync':
            r.ctx.synchronize(r.restore)
        elif coll[0] == 'nosync':
            r.ctx.synchronize(r.restore, sync_ghosts=False)
        elif coll[0] == 'moveto':
            r.ctx.move_agents([(u, d) for u, d in coll[1] if moved[u] == rank], r.restore)
        elif coll[0] in ('request', 'request+sync'):
            mine = [(u, w0[u]) for k, u in coll[1] if k == rank]
            r.seen = {u for u, _ in mine if r.ctx.ghost_agent(u) is not None}
            got = r.ctx.request_agents(mine, r.restore)
            if sorted(a.uid for a in got) != sorted(set(u for u, _ in mine)):
                raise Violation('rank %d: requested %s, got %s' % (rank, mine, [a.uid for a in got]))
            for a in got:
                if a is not r.ctx.ghost_agent(a.uid):
                    raise Violation('rank %d: the requested agent %s is not the ghost in the context' % (rank, a.uid))
                if a.state != snap.state[a.uid] and a.uid not in r.seen:
                    raise Violation('rank %d: the requested agent %s has state %s, the agent %s' % (rank, a.uid, a.state, snap.state[a.uid]))
                if a.local_rank != w0[a.uid]:
                    raise Violation('rank %d: the requested agent %s has local rank %s instead of %s' % (rank, a.uid, a.local_rank, w0[a.uid]))
            got = a = None
            if coll[0] == 'request+sync':
                r.ctx.synchronize(r.restore)
        elif coll[0] == 'read':
            r.read(coll)
        elif coll[0] == 'proj':
            r.add_proj(coll[1])
        elif coll[0] == 'ckpt':
            if 'synced' in coll[1]:
                r.ctx.synchronize(r.restore)
            r = r.restored(r.checkpoint(coll[1]), coll[1])
            r.ctx.synchronize(r.restore)
        elif coll[0] == 'save':
            r.ctx.synchronize(r.restore)
            r.saved = r.checkpoint(coll[1])
        elif coll[0] == 'back':
            c = r.saved
            r = r.restored(c, coll[1])
            r.saved = c
            r.ctx.synchronize(r.restore)
        if fresh:
            r.check(snap, ghosts=coll[0] in ('sync', 'moveto', 'request+sync', 'ckpt', 'save', 'back', 'read'), uids=uids)
        i += 1


def run_script(cfg, ch, gen):
    script = Script(ch, gen)
    try:
        run_world(cfg.n, _prog, cfg, script, None, {})
    except Violation as v:
        v.msg = '%s: %s; steps: %s' % (cfg, v.msg, [s[0] for s in script.steps])
        raise


def wide(cfg, na, rounds, ckpt=()):
    """many agents that all do something in every round, by formulas whose
    parameters are enumerated; parts: moves, changes, removals and additions,
    requests, moves by rank, edges; ckpt: ways to save and restore all at half time"""
    def gen(model, ch, i):
        if i > rounds:
            return None
        if ckpt and i == rounds // 2:
            return [('set', u, 1000 * i + j) for j, u in enumerate(sorted(model.rank))], ('ckpt', ch.choose(ckpt))
        if cfg.late and i == rounds // 2:
            return [], ('proj', cfg.late)
        nets = [k for k in cfg.nets if k not in cfg.late or i > rounds // 2]
        cells = cfg.cells() if cfg.spaces else []
        if i == 0:
            gen.p, gen.q = 1 + ch.pick(8), ch.pick(3)
            ops = []
            used = {}
            for a in range(na):
                r = (a * gen.p + a // cfg.n) % cfg.n
                mine = [c for c in cells if model.owner(c) == r] if cells else []
                used[r] = used.get(r, -1) + 1
                ops.append(('add', (a, a % 3, r), mine[used[r] * gen.p % len(mine)] if mine else None, a))
            return ops, ('sync',)
        p, q = gen.p, gen.q
        us = sorted(model.rank)
        ops, gone = [], set()
        snap = model.snapshot()
        for j, u in enumerate(us):
            ops.append(('set', u, 1000 * i + j))
        coll = ('sync',)
        kind = (i + q) % 3
        if cells and (kind or not nets):
            # most move, some twice
            for j, u in enumerate(us):
                if (j + q) % 4 == 0:
                    continue
                to = cells[(j * p + i * (q + 3) * 5 + j // 7) % len(cells)]
                ops.append(('mv', u, (to,) if j % 5 else (cells[(j + i) % len(cells)], to)))
            if kind == 1:
                coll = ('nosync',) if i < rounds and q == 1 else ('sync',)
        if nets:
            sim, pend = model.snapshot(), {}
            net = nets[i % len(nets)]
            known = [(set() if gen.blind else set(snap.ghosts(r)[0])) | {u for u in us if snap.rank[u] == r} for r in range(cfg.n)]
            for j, u in enumerate(us):
                v = us[(j * p + i + q) % len(us)]
                rs = [r for r in (snap.rank[u], snap.rank[v]) if u in known[r] and v in known[r]]
                key = model.ekey(net, u, v)
                if not rs or key in pend:
                    continue
                r = rs[(i + j) % len(rs)]
                pend[key] = r
                if key not in sim.edges[net]:
                    op = ('edge', r, net, u, v, {'w': 100 * i + j})
                elif (i + j) % 3:
                    op = ('upd', r, net) + key + ({'x': 100 * i + j},)
                else:
                    op = ('cut', r, net) + key
                ops.append(op)
                apply(sim, ([op], ('none',)))
        if kind == 2:
            # some leave for good, as many are created
            for j, u in enumerate(us):
                if (j + i) % 9 == q:
                    ops.append(('rm', u))
                    gone.add(u)
            for j in range(len(gone)):
                r = (j * p + q) % cfg.n
                ops.append(('add', (1000 * i + j, j % 3, r), None, j))
            for j, u in enumerate(x for x in us if x not in gone and x in model.loc):
                if j % 6 == 1:
                    ops.append(('set', u, 5000 + j))
            if p % 4 == 0 and i < rounds:
                # and others are moved before the other ranks know
                ops = [o for o in ops if o[0] != 'mv']
                coll = ('moveto', tuple((u, r) for u, r in ((u, (model.rank[u] + j * p + i) % cfg.n) for j, u in enumerate(us) if u not in gone) if r != model.rank[u]))
        elif i < rounds or not cells:
            if (i + q) % 2:
                pairs = [(r, u) for j, u in enumerate(us) for r in range(cfg.n)
                         if r != model.rank[u] and (r, u) not in model.req and (j * p + r + i) % 3 == 0]
                ops = [o for o in ops if o[0] != 'mv']
                coll = ('request+sync', tuple(pairs))
            elif not cells or q == 2:
                to = tuple((u, (model.rank[u] + 1 + (j * p + i) % max(1, cfg.n - 1)) % cfg.n) for j, u in enumerate(us) if (j * p + q) % 3 != 1)
                to = tuple((u, r) for u, r in to if r != model.rank[u])
                ops = [o for o in ops if o[0] != 'mv']
                coll = ('moveto', to)
        gen.blind = coll[0] == 'nosync'
        return ops, coll
    gen.blind = False
    return gen


def wide_items(kinds, ckpt=(), more=False, cbuf=False):
    out = []
    for n, box, per, buf, na in [(2, (0, 8, 0, 0, 0, 0), 0, 1, 50), (4, (-3, 8, 5, 8, 0, 0), 1, 2, 40), (8, (-4, 4, 0, 4, 0, 4), 0, 1, 30)] + (
            [(3, (0, 9, 0, 0, 0, 0), 1, 2, 60), (6, (0, 8, 0, 8, 0, 0), 1, 1, 50), (9, (0, 12, -2, 12, 0, 0), 0, 2, 200)] if more else []):
        for i, k in enumerate(kinds):
            # kinds after a + are added later
            cfg = Cfg(n, box, per, buf, k.replace('+', ''), ('new', 'cache')[(i + n // 2) % 2], late=k.partition('+')[2], cbuf=3 - buf if cbuf else None)
            out.append(('wide-%s%s-n%d-a%d' % (k or 'none', '-buffers' if cbuf else '', n, na), ('wide', cfg, na, 8, ckpt)))
    return out


def run_wide(params, ch):
    _, cfg, na, rounds, ckpt = params
    run_script(cfg, ch, wide(cfg, na, rounds, ckpt))


def fresh_uid(model, rank, n, type=0):
    return (n, type, rank)
