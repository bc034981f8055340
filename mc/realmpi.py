"""Validates the simulated MPI: executions of the checks are recorded and run
again by real MPI processes, on extension modules built against the real
library, with the same comparisons with the reference model in each process.

    realmpi.py [thorough]     prints a summary, exit 0 if all agree"""
import importlib
import importlib.util
import os
import pickle
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MODULES = ('core', 'space', 'geometry', 'context', 'network', 'value_layer', 'schedule', 'checkpoint', 'logging', 'random', 'parameters', 'util')
# checks whose executions have their decisions made outside of the ranks
CHECKS = ('c03', 'c04', 'c05', 'c06', 'c08', 'c14', 'c16')
MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1', OMPI_MCA_osc='^ucx',
               OMPI_MCA_plm_rsh_agent='/bin/false', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1',
               OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_btl_vader_single_copy_mechanism='none', RDMAV_FORK_SAFE='1', HWLOC_COMPONENTS='-gl')


class Unavailable(Exception):
    pass


def build_real(out):
    """a package folder with the extension modules built against the real MPI"""
    from mc import build
    import numpy as np
    mpicxx = shutil.which('mpicxx.openmpi') or shutil.which('mpicxx')
    if not mpicxx:
        raise Unavailable('no mpicxx')
    spec = importlib.util.find_spec('mpi4py')
    inc = ['-I' + build.SRC, '-I' + sysconfig.get_paths()['include'], '-I' + np.get_include(),
           '-I' + os.path.join(os.path.dirname(spec.origin), 'include')]
    pkg = os.path.join(out, 'repast4py')
    os.makedirs(pkg)
    for f in os.listdir(build.SRC):
        if f.endswith('.py'):
            os.symlink(os.path.join(build.SRC, f), os.path.join(pkg, f))
    env = dict(os.environ, OMPI_CXX='g++')

    def cc(f):
        o = os.path.join(out, f + '.o')
        p = subprocess.run([mpicxx, '-std=c++11', '-O1', '-fPIC', '-w'] + inc + ['-c', os.path.join(build.SRC, f), '-o', o],
                           capture_output=True, text=True, env=env)
        if p.returncode:
            raise Unavailable(p.stderr[-2000:])
        return o
    for mod, fs in build._ext_sources().items():
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, fs))
        p = subprocess.run([mpicxx, '-shared', '-o', os.path.join(pkg, mod + '.so')] + objs, capture_output=True, text=True, env=env)
        if p.returncode:
            raise Unavailable(p.stderr[-2000:])


def record(checks, per_item, max_items, max_ranks=9):
    """runs executions of the checks on the simulated ranks and records the
    programs of their worlds: (check, item, ranks, module, function, arguments, results)"""
    from mc import common, engine

    class Policy(engine.Chooser):
        def __init__(self, p):
            super().__init__()
            self.p = p

        def pick(self, n):
            i = len(self.trace)
            c = (self.p * 7919 + i * (self.p + 1) * 31) % n if self.p else 0
            self.trace.append(c)
            self.width.append(n)
            return c

    out = []
    real = common.run_world
    for cid in checks:
        chk = importlib.import_module('mc.checks.' + cid)
        if hasattr(chk, 'prepare'):
            chk.prepare('quick')
        items = chk.items('quick')
        items = [items[i * len(items) // max_items] for i in range(min(max_items, len(items)))] if len(items) > max_items else items
        for name, params in items:
            for p in range(per_item):
                rec = []

                def run_world(n, fn, *args, **kw):
                    res = real(n, fn, *args, **kw)
                    rec.append((n, fn, args, res[0]))
                    return res
                from mc import worlds
                mods = [m for m in (chk, worlds) if hasattr(m, 'run_world')]
                for m in mods:
                    m.run_world = run_world
                try:
                    chk.run(params, Policy(p))
                finally:
                    for m in mods:
                        m.run_world = real
                for n, fn, args, res in rec:
                    if n < 2 or n > max_ranks:
                        continue
                    for a in args:
                        if isinstance(a, worlds.Script):
                            a.ch = a.gen = None
                            a.done = True
                    if any(isinstance(a, engine.Chooser) for a in args):
                        continue
                    try:
                        data = pickle.dumps((cid, name, n, fn.__module__, fn.__qualname__, args, res))
                        pickle.loads(data)
                    except Exception:
                        continue
                    out.append((n, data))
    return list(dict.fromkeys(out))


def replay(path):
    """in a real MPI process: runs the programs recorded in a file"""
    from mpi4py import MPI
    import traceback
    sys.path.insert(0, VERIF)
    import types
    ns = types.SimpleNamespace(**{k: importlib.import_module('repast4py.' + k) for k in MODULES})
    comm = MPI.COMM_WORLD
    with open(path, 'rb') as f:
        traces = pickle.load(f)
    for data in traces:
        cid, item, n, mod, fn, args, want = pickle.loads(data)
        try:
            got = getattr(importlib.import_module(mod), fn)(ns, comm.Get_rank(), comm, *args)
            if got != want[comm.Get_rank()]:
                raise AssertionError('got %r, simulated %r' % (got, want[comm.Get_rank()]))
        except BaseException:
            print('DISAGREE %s %s rank %d of %d: %s' % (cid, item, comm.Get_rank(), n, traceback.format_exc()[-3000:]), flush=True)
            comm.Abort(3)
    if comm.Get_rank() == 0:
        print('REPLAYED %d' % len(traces), flush=True)


def validate(checks=CHECKS, per_item=3, max_items=8, timeout=1500):
    """-> (number of traces replayed by real processes, {ranks: number}, [disagreements])"""
    from mc import build
    traces = record(checks, per_item, max_items)
    tmp = tempfile.mkdtemp(prefix='real-', dir=build.cache_root())
    try:
        build_env = dict(os.environ)
        # (in this process mpi4py is the simulated one)
        p = subprocess.run([sys.executable, '-W', 'ignore', os.path.abspath(__file__), '--build', os.path.join(tmp, 'pkg')],
                           capture_output=True, text=True, env=build_env)
        if p.returncode:
            raise Unavailable(p.stderr[-2000:])
        groups = {}
        for n, data in traces:
            groups.setdefault(n, []).append(data)
        env = dict(os.environ, PYTHONPATH=os.path.join(tmp, 'pkg'), TMPDIR=tmp, **MPI_ENV)
        mpirun = shutil.which('mpirun.openmpi') or shutil.which('mpirun')
        if not mpirun:
            raise Unavailable('no mpirun')
        count, bad = {}, []
        for n, ts in sorted(groups.items()):
            f = os.path.join(tmp, 't%d' % n)
            with open(f, 'wb') as fh:
                pickle.dump(ts, fh)
            try:
                p = subprocess.run([mpirun, '--oversubscribe', '-n', str(n), sys.executable, '-W', 'ignore', os.path.abspath(__file__), '--replay', f],
                                   capture_output=True, text=True, env=env, timeout=timeout)
                o = p.stdout + p.stderr
            except subprocess.TimeoutExpired as e:
                bad.append('%d ranks: not done in %d s' % (n, timeout))
                continue
            if 'DISAGREE' in o:
                bad.append(o[o.index('DISAGREE'):][:3000])
            elif 'REPLAYED %d' % len(ts) in o:
                count[n] = len(ts)
            else:
                raise Unavailable('mpirun: ' + o[-2000:])
        return sum(count.values()), count, bad
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.path.insert(0, VERIF)
    if sys.path and os.path.abspath(sys.path[0]) == HERE or HERE in sys.path:
        sys.path.remove(HERE)
    if sys.argv[1:2] == ['--replay']:
        replay(sys.argv[2])
    elif sys.argv[1:2] == ['--build']:
        try:
            build_real(sys.argv[2])
        except Unavailable as e:
            print(e, file=sys.stderr)
            sys.exit(1)
    else:
        from mc import loader, realmpi
        loader.setup()
        deep = 'thorough' in sys.argv
        total, count, bad = realmpi.validate([a for a in sys.argv[1:] if a.startswith('c')] or CHECKS, 12 if deep else 3, 40 if deep else 8)
        print('%d recorded executions run again by real MPI processes, by number of ranks: %s' % (total, count))
        for b in bad:
            print(b)
        sys.exit(1 if bad else 0)
