"""Builds the tree under test, out of tree, in the ways the checks need."""
import fcntl, os, re, shutil, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TAG = '' if REPO == '/repo' else '-' + re.sub(r'\W', '_', REPO)


class BuildError(Exception):
    pass


SAN = '-fsanitize=address,undefined -fno-sanitize=vla-bound -fno-sanitize-recover=all -g1'
KINDS = {
    'asan': ['-DCMAKE_CXX_FLAGS=' + SAN, '-DCMAKE_C_FLAGS=' + SAN],
    'opt': ['-DCMAKE_CXX_FLAGS=-O2'],
    'omp': ['-DBUILD_OPENMP=ON'],
    'tsan': ['-DBUILD_OPENMP=ON', '-DCMAKE_CXX_FLAGS=-fsanitize=thread -g1', '-DCMAKE_C_FLAGS=-fsanitize=thread'],
    'mpi': ['-DBUILD_MPI=ON'],
    'mpiomp': ['-DBUILD_MPI=ON', '-DBUILD_OPENMP=ON'],
    'py': ['-DBUILD_PYTHON=ON', '-DPYTHON_EXECUTABLE=/usr/bin/python3'],
}


def run(cmd, **kw):
    env = {k: v for k, v in os.environ.items() if k not in ('LD_LIBRARY_PATH',)}
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['CC'], env['CXX'], env['CCACHE_DISABLE'] = 'gcc', 'g++', '1'
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])


def tree(kind):
    return os.path.join(VERIF, '.build', kind + TAG)


def make(kind, targets):
    """Builds targets in a tree of the given kind and returns the tree."""
    d = tree(kind)
    os.makedirs(d, exist_ok=True)
    with open(d + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        run(['cmake', '-S', os.path.join(VERIF, 'cmake'), '-B', d, '-G', 'Ninja', '--no-warn-unused-cli',
             '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DQED_REPO=' + REPO] + KINDS[kind])
        run(['ninja', '-C', d] + targets)
    return d


def cpp(kind, target):
    return os.path.join(make(kind, [target]), target)


def exe(kind='opt'):
    """The command line program and the HDF5 dumper."""
    d = make(kind, ['QEDCASC', 'h5json'])
    return os.path.join(d, 'repo/Source/Exec/QEDCASC'), os.path.join(d, 'h5json')


def ref():
    """The reference integrator, a shared library."""
    return os.path.join(make('opt', ['ref']), 'ref.so')


def rngshim():
    """Preloaded, it makes a run repeatable."""
    return os.path.join(make('opt', ['rngshim']), 'rngshim.so')


def shim(name, compiler='gcc'):
    d = os.path.join(VERIF, '.build', 'shim')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name + '.so')
    with open(out + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        run([compiler, '-O1', '-shared', '-fPIC', os.path.join(VERIF, 'harness', name + '.c'), '-o', out, '-ldl', '-lpthread'])
    return out


def mpishim():
    """Preloaded, it delays messages."""
    return shim('mpishim', 'mpicc')


def ompshim():
    """Preloaded, it delays threads, or runs them where ThreadSanitizer follows."""
    return shim('ompshim')


def python_package():
    """A directory to put on PYTHONPATH for "import QEDCascPy"."""
    d = make('py', ['all'])
    pkg = os.path.join(d, 'pkg')
    with open(d + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        shutil.rmtree(pkg, ignore_errors=True)
        os.makedirs(pkg)
        shutil.copytree(os.path.join(REPO, 'Source/Python/QEDCascPy'), os.path.join(pkg, 'QEDCascPy'))
        run(['cmake', '--install', os.path.join(d, 'repo'), '--prefix', os.path.join(pkg, 'QEDCascPy')])
    return pkg
