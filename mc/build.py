"""Builds the repast4py extension modules of /repo's working tree against the
simulated MPI, into a git-ignored cache folder keyed by the sources' hash."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
SRC = os.path.join(REPO, 'src', 'repast4py')
STUB = os.path.join(HERE, 'stub')

MODULES = {
    '_core': ['coremodule.cpp'],
    '_space': ['spacemodule.cpp', 'geometry.cpp', 'space.cpp', 'distributed_space.cpp', 'SpatialTree.cpp'],
}


class BuildError(Exception):
    pass


def _ext_sources():
    """Source lists of the extensions: the .cpp files of the package, split as
    setup.py splits them (new files go to _space)."""
    cpps = sorted(f for f in os.listdir(SRC) if f.endswith('.cpp'))
    core = [f for f in cpps if f in MODULES['_core']]
    return {'_core': core, '_space': [f for f in cpps if f not in core]}


def cache_root():
    for d in (os.path.join(VERIF, '.build'), os.path.join(tempfile.gettempdir(), 'mc-build-%d' % os.getuid())):
        try:
            os.makedirs(d, exist_ok=True)
            if os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    raise BuildError('no writable build folder')


def source_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    h.update(sys.version.encode())
    for root, pat in ((SRC, ('.cpp', '.h')), (STUB, ('.h', '.c'))):
        for dp, dn, fn in sorted(os.walk(root)):
            for f in sorted(fn):
                if f.endswith(pat):
                    h.update(f.encode())
                    with open(os.path.join(dp, f), 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:24]


def build(flavour='plain'):
    """Returns the folder holding _core.so and _space.so; builds them first if
    the sources changed."""
    import numpy as np
    flags = ['-std=c++11', '-O1', '-fPIC', '-w', '-g0']
    link = []
    if flavour == 'asan':
        flags = ['-std=c++11', '-O1', '-g', '-fno-omit-frame-pointer', '-fPIC', '-w', '-fsanitize=address,undefined',
                 '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS']
        link = ['-fsanitize=address,undefined']
    root = cache_root()
    key = '%s-%s' % (flavour, source_hash(flavour + ' '.join(flags)))
    out = os.path.join(root, key)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    with open(os.path.join(root, 'lock.' + flavour), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        tmp = tempfile.mkdtemp(prefix='tmp-', dir=root)
        try:
            inc = ['-I' + os.path.join(STUB, 'include'), '-I' + SRC, '-I' + sysconfig.get_paths()['include'],
                   '-I' + np.get_include()]
            exts = _ext_sources()

            def cc(f):
                o = os.path.join(tmp, f + '.o')
                p = subprocess.run(['g++'] + flags + inc + ['-c', os.path.join(SRC, f), '-o', o],
                                   capture_output=True, text=True)
                if p.returncode:
                    raise BuildError('%s: %s' % (f, p.stderr[-4000:]))
                return o
            with ThreadPoolExecutor(8) as ex:
                objs = dict(zip([f for fs in exts.values() for f in fs],
                                ex.map(cc, [f for fs in exts.values() for f in fs])))
            for m, fs in exts.items():
                p = subprocess.run(['g++', '-shared', '-o', os.path.join(tmp, m + '.so')] + [objs[f] for f in fs] + link,
                                   capture_output=True, text=True)
                if p.returncode:
                    raise BuildError('%s: %s' % (m, p.stderr[-4000:]))
            for o in objs.values():
                os.remove(o)
            p = subprocess.run(['gcc', '-O1', '-fPIC', '-w', '-shared'] + inc + [os.path.join(STUB, 'mcco.c'), '-o',
                               os.path.join(tmp, 'mcco.so')], capture_output=True, text=True)
            if p.returncode:
                raise BuildError('mcco: ' + p.stderr[-4000:])
            open(os.path.join(tmp, 'ok'), 'w').close()
            if os.path.exists(out):
                shutil.rmtree(out)
            os.rename(tmp, out)
            tmp = None
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
        # keep only a few builds
        olds = sorted((d for d in os.listdir(root) if d.startswith(flavour + '-')),
                      key=lambda d: os.path.getmtime(os.path.join(root, d)))
        for d in olds[:-4]:
            if d != key:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
    return out


if __name__ == '__main__':
    print(build(*(sys.argv[1:2] or ['plain'])))
