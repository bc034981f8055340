"""After a synchronization every rank holds exactly the agents of its buffer
area as ghosts, at their locations, with their state."""
from .. import worlds
from ..worlds import Cfg

ID = 'C04'


def layouts(deep):
    """(dims, ranks, box, buffer sizes)"""
    out = [
        (1, (1, 2, 3, 4), (-2, 8, 0, 0, 0, 0), (0, 1, 2)),
        (1, (2, 3), (0, 7, 0, 0, 0, 0), (1, 2)),
        (2, (1, 2, 4), (-2, 4, 1, 4, 0, 0), (1, 2)),
        (2, (2, 3, 6), (0, 6, -1, 4, 0, 0), (1, 2)),
        (2, (2, 4), (1, 5, 0, 3, 0, 0), (1,)),
        (3, (1, 2, 4), (0, 4, 0, 2, -1, 2), (1,)),
        (3, (8,), (0, 2, 0, 2, 0, 2), (1,)),
    ]
    if deep:
        out += [
            (2, (8, 9), (0, 6, 0, 6, 0, 0), (1, 2)),
            (3, (3, 6, 8), (0, 6, 0, 4, 0, 4), (1, 2)),
            (3, (2, 4, 12), (0, 6, -2, 4, 1, 3), (1,)),
        ]
    return out


def items(tier):
    deep = tier == 'thorough'
    out = []
    for dims, ns, box, bufs in layouts(deep):
        for n in ns:
            for buf in bufs:
                if _min_extent(box, n, dims) < buf:
                    continue
                for per in (0, 1):
                    for kinds in ('g', 'c', 'gc'):
                        frac = 0 if buf == 2 and kinds == 'c' else 0.25
                        cfg = Cfg(n, box, per, buf, kinds, 'cache' if kinds == 'gc' else 'new', single=kinds == 'g' and per, frac=frac)
                        ncell = len(cfg.cells())
                        rounds = (2 if dims < 3 else 1) if deep else (2 if dims == 1 and kinds == 'g' else 1 if ncell <= 16 or n <= 2 or kinds == 'g' else 0)
                        if kinds == 'gc' and not deep and n > 4:
                            continue
                        out.append(('%dd-n%d-b%d-%s-%s-%s' % (dims, n, buf, 'per' if per else 'sticky', kinds, box), (cfg, rounds)))
    # two spaces with buffers of their own
    for n, box in ((2, (-2, 6, 0, 0, 0, 0)), (4, (0, 4, -1, 4, 0, 0))):
        for buf, cbuf in ((0, 1), (1, 0), (1, 2), (2, 1)):
            for per in (0, 1):
                cfg = Cfg(n, box, per, buf, ('gc', 'cg')[per], ('new', 'cache')[n == 2], cbuf=cbuf)
                out.append(('buffers-n%d-b%d-%d-%d' % (n, buf, cbuf, per), (cfg, 2 if n == 2 else 1)))
    return out + worlds.wide_items(('gc',), more=deep) + worlds.wide_items(('gc',), more=deep, cbuf=True)


def _min_extent(box, n, dims):
    import mpi4py.MPI as MPI
    pd = MPI.Compute_dims(n, [0] * dims)
    return min(box[2 * d + 1] // pd[d] for d in range(dims))


def run(params, ch):
    if params[0] == 'wide':
        return worlds.run_wide(params, ch)
    cfg, rounds = params
    cells = cfg.cells()

    def gen(model, ch, i):
        if i > rounds:
            return None
        if i == 0:
            c = ch.choose(cells)
            ops = [('add', (0, 0, model.owner(c)), c, 1)]
            # company in the same place, or a second agent in the opposite corner
            c2 = cells[-1 - cells.index(c)] if cfg.single else c
            if c2 != c:
                ops.append(('add', (1, 1, model.owner(c2)), c2, 2))
            elif not cfg.single:
                ops.append(('add', (1, 0, model.owner(c)), c, 2))
            return ops, ('sync',)
        u = sorted(model.rank)[0]
        c = ch.choose([None] + [x for x in cells if not cfg.single or x not in model.loc.values()])
        ops = [('set', u, 10 * i)]
        if c is not None:
            ops.append(('mv', u, (c,)))
        elif len(model.rank) > 1:
            ops.append(('rm', sorted(model.rank)[1]))
        return ops, ('sync',)
    worlds.run_script(cfg, ch, gen)
