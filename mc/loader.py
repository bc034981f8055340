"""Loads the code under test from /repo's working tree, with the simulated MPI
in place of mpi4py, and makes one independent instance of the Python modules
per simulated rank (separate processes would not share module globals)."""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import build as _build

SHARED = ('repast4py._core', 'repast4py._space', 'repast4py.geometry')
_code = {}
_so_dir = None
NAMES = []


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        c = _code.get(self.path)
        if c is None:
            with open(self.path, 'rb') as f:
                c = _code[self.path] = compile(f.read(), self.path, 'exec', dont_inherit=True)
        exec(c, module.__dict__)

    def get_source(self, name):
        with open(self.path) as f:
            return f.read()


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'repast4py' and not name.startswith('repast4py.'):
            return None
        if name == 'repast4py':
            p = os.path.join(_build.SRC, '__init__.py')
            sp = importlib.machinery.ModuleSpec(name, _Loader(name, p, True), origin=p, is_package=True)
            sp.submodule_search_locations = [_build.SRC]
            sp.has_location = True
            return sp
        sub = name.split('.', 1)[1]
        p = os.path.join(_build.SRC, *sub.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            sp = importlib.machinery.ModuleSpec(name, _Loader(name, f, True), origin=f, is_package=True)
            sp.submodule_search_locations = [p]
            sp.has_location = True
            return sp
        if os.path.exists(p + '.py'):
            sp = importlib.machinery.ModuleSpec(name, _Loader(name, p + '.py', False), origin=p + '.py')
            sp.has_location = True
            return sp
        return None


def _load_so(name):
    return _load_ext(name, 'repast4py.' + name)

def _load_ext(name, full):
    path = os.path.join(_so_dir, name + '.so')
    ldr = importlib.machinery.ExtensionFileLoader(full, path)
    spec = importlib.util.spec_from_file_location(full, path, loader=ldr)
    m = importlib.util.module_from_spec(spec)
    sys.modules[full] = m
    if full.startswith('repast4py.'):
        setattr(sys.modules['repast4py'], name, m)
    spec.loader.exec_module(m)
    return m


def setup(flavour='plain'):
    """Call once per process, before anything imports repast4py or mpi4py."""
    global _so_dir
    if _so_dir:
        return
    _so_dir = _build.build(flavour)
    assert 'mpi4py' not in sys.modules and 'repast4py' not in sys.modules
    sys.path.insert(0, _build.STUB)
    sys.meta_path.insert(0, _Finder())
    import mpi4py
    assert mpi4py.__version__.endswith('+mc')
    _load_ext('mcco', 'mcco')
    from mpi4py import MPI
    MPI.use_coroutines(sys.modules['mcco'])
    import repast4py  # noqa: F401
    _load_so('_core')
    _load_so('_space')
    import repast4py.geometry  # noqa: F401
    for f in sorted(os.listdir(_build.SRC)):
        if f.endswith('.py') and f not in ('__init__.py',):
            NAMES.append('repast4py.' + f[:-3])
    _fresh_set()


def _fresh_set():
    shared = {k: sys.modules[k] for k in SHARED if k in sys.modules}
    for k in [k for k in sys.modules if k == 'repast4py' or k.startswith('repast4py.')]:
        del sys.modules[k]
    sys.modules.update(shared)
    import repast4py
    for k, m in shared.items():
        setattr(repast4py, k.split('.')[1], m)
    for n in NAMES:
        if n not in sys.modules:
            importlib.import_module(n)
    return {k: m for k, m in sys.modules.items() if k == 'repast4py' or k.startswith('repast4py.')}


class Mods:
    """Attribute access to one rank's module instances: m.schedule, m.core..."""

    def __init__(self, table):
        self.table = table
        for k, v in table.items():
            if '.' in k:
                setattr(self, k.split('.', 1)[1], v)


def fresh():
    return Mods(_fresh_set())


_pool = []


def rank_modules(n):
    """n cached module instances."""
    while len(_pool) < n:
        _pool.append(fresh())
    return _pool[:n]
