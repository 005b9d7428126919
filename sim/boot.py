"""Process bootstrap: build the disk shim and (when missing or stale) the
Cython extension, then re-exec the interpreter in the controlled environment.

Nothing here writes into /repo.
"""
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, 'sim')
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
PY = '/opt/venv/bin/python'


def _sha(*chunks):
    h = hashlib.sha256()
    for c in chunks:
        h.update(c)
    return h.hexdigest()


def ext_inputs():
    files = []
    for d, _, names in os.walk(os.path.join(REPO, 'brainstorm')):
        for n in names:
            if n.endswith(('.pyx', '.pxd')):
                p = os.path.join(d, n)
                files.append(os.path.relpath(p, REPO))
    return sorted(files)


def build_shim():
    src = os.path.join(SIM, 'shim', 'iofault.c')
    with open(src, 'rb') as f:
        key = _sha(f.read())[:16]
    out = os.path.join(BUILD, 'iofault-%s.so' % key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = '%s.%d' % (out, os.getpid())
        subprocess.check_call(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp,
                               src, '-ldl'])
        os.replace(tmp, out)
    return out


def build_ext():
    """Return the path of an up-to-date _cpuop extension."""
    files = ext_inputs()
    chunks = []
    with open(os.path.join(REPO, 'setup.py'), 'rb') as f:
        chunks.append(f.read())
    for p in files:
        with open(os.path.join(REPO, p), 'rb') as f:
            chunks.append(f.read())
    now = _sha(*chunks)
    have = glob.glob(os.path.join(REPO, 'brainstorm/handlers/_cpuop.*.so'))
    try:
        with open(os.path.join(REPO, 'build/cpuop.sha256')) as f:
            stamp = f.read().split()[0]
    except (OSError, IndexError):
        stamp = None
    if have and stamp == now:
        return have[0]
    target = os.path.join(BUILD, 'ext-' + now[:16])
    done = glob.glob(os.path.join(target, '_cpuop.*.so'))
    if done:
        return done[0]
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='ext-build-')
    try:
        for p in ['setup.py'] + files:
            os.makedirs(os.path.dirname(os.path.join(scratch, p)),
                        exist_ok=True)
            shutil.copy(os.path.join(REPO, p), os.path.join(scratch, p))
        for p in glob.glob(os.path.join(REPO, '*.rst')) + \
                glob.glob(os.path.join(REPO, 'brainstorm', '__*__.py')) + \
                glob.glob(os.path.join(REPO, '*.txt')):
            q = os.path.join(scratch, os.path.relpath(p, REPO))
            if not os.path.exists(q):
                shutil.copy(p, q)
        for d in {os.path.dirname(p) for p in files}:
            init = os.path.join(scratch, d, '__init__.py')
            open(init, 'a').close()
        env = dict(os.environ, PYTHONPATH=scratch,
                   PYTHONDONTWRITEBYTECODE='1')
        env.pop('LD_PRELOAD', None)
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace'],
                           cwd=scratch, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        built = glob.glob(os.path.join(scratch,
                                       'brainstorm/handlers/_cpuop.*.so'))
        if r.returncode or not built:
            sys.stdout.buffer.write(r.stdout[-4000:])
            raise SystemExit('could not build the extension')
        tmp = target + '.%d' % os.getpid()
        os.makedirs(tmp)
        shutil.copy(built[0], tmp)
        try:
            os.rename(tmp, target)
        except OSError:
            shutil.rmtree(tmp)
    finally:
        shutil.rmtree(scratch)
    return glob.glob(os.path.join(target, '_cpuop.*.so'))[0]


class _ExtFinder(object):
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name != 'brainstorm.handlers._cpuop':
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, self.path)
        return importlib.util.spec_from_file_location(name, self.path,
                                                      loader=loader)


def child_env(hashseed='0', extra=None):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('PYTHON', 'BRAINSTORM'))}
    env.update(
        LD_PRELOAD=build_shim(), SIM_BOOTED='1', SIM_EXT=build_ext(),
        SIM_REPO=REPO, PYTHONHASHSEED=str(hashseed), PYTHONPATH='',
        PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
        HDF5_USE_FILE_LOCKING='FALSE', LANG='C.UTF-8', MPLBACKEND='Agg',
        TZ='UTC')
    if extra:
        env.update(extra)
    return env


def reexec():
    """Called first thing by every entry point."""
    if os.environ.get('SIM_BOOTED') != '1':
        env = child_env()
        os.execve(PY, [PY, '-W', 'ignore'] + sys.argv, env)
    sys.meta_path.insert(0, _ExtFinder(os.environ['SIM_EXT']))
    sys.path[:0] = [REPO, SIM]
    import numpy as np
    np.random.seed(12345)
    np.seterr(all='ignore')
    import brainstorm
    here = os.path.realpath(brainstorm.__file__)
    assert here.startswith(os.path.realpath(REPO) + os.sep), here
