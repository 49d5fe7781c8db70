"""Environment set-up shared by every check.

 * builds the three C extensions from the *current* working tree of /repo into a scratch
   directory (never into /repo) and makes `import dynaphopy...` use those binaries while every
   Python module still comes straight from /repo;
 * makes hypothesis (only installed in the tooling venv) importable;
 * pins thread counts, the matplotlib back end and its configuration directory.
"""
import importlib.abc
import importlib.machinery
import os
import subprocess
import sys
import tempfile
import atexit
import shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
TOOLS = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

EXTS = {'dynaphopy.displacements': 'displacements.c',
        'dynaphopy.power_spectrum.mem': 'mem.c',
        'dynaphopy.power_spectrum.correlation': 'correlation.c'}


class HarnessError(Exception):
    """Something is wrong with the harness or the build: exit code 2, never a violation."""


_scratch = None


def scratch():
    """Scratch directory of this run; removed at exit by the process that made it."""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='dynaverif.', dir=base)
        owner = os.getpid()

        def clean(path=_scratch):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def setup_env():
    s = scratch()
    os.environ['MPLBACKEND'] = 'Agg'
    mpl = os.path.join(s, 'mpl')
    os.makedirs(mpl, exist_ok=True)
    os.environ['MPLCONFIGDIR'] = mpl
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ.pop('DYNAPHOPY_TEMPDIR', None)
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['SPGLIB_WARNING'] = 'OFF'


def build_extensions(outdir=None, cflags=(), repo=None):
    """Compile /repo/c/*.c like setup.py does (gcc, -std=c99 -fopenmp). Returns {module: path}."""
    import sysconfig
    import numpy
    repo = repo or REPO
    outdir = outdir or os.path.join(scratch(), 'ext')
    os.makedirs(outdir, exist_ok=True)
    inc = sysconfig.get_paths()['include']
    procs, out = [], {}
    for mod, src in EXTS.items():
        target = os.path.join(outdir, mod.split('.')[-1] + '.so')
        cmd = ['gcc', '-shared', '-fPIC', '-O2', '-DNDEBUG', '-std=c99']
        if 'displacements' not in mod:
            cmd += ['-fopenmp']
        cmd += list(cflags) + ['-I' + inc, '-I' + numpy.get_include(),
                               os.path.join(repo, 'c', src), '-o', target, '-lm']
        if 'displacements' not in mod:
            cmd += ['-lgomp']
        procs.append((mod, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        out[mod] = target
    for mod, cmd, p in procs:
        text = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            raise HarnessError('building %s failed:\n%s' % (mod, text))
    return out


class _ExtFinder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        if name in self.table:
            loader = importlib.machinery.ExtensionFileLoader(name, self.table[name])
            return importlib.machinery.ModuleSpec(name, loader, origin=self.table[name])
        return None


def install(table, repo=None):
    repo = repo or REPO
    sys.meta_path.insert(0, _ExtFinder(table))
    sys.path.insert(0, repo)


def tools_path():
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)


def prepare():
    """Full set-up in this process; returns the imported dynaphopy package."""
    setup_env()
    table = build_extensions()
    install(table)
    tools_path()
    import warnings
    warnings.filterwarnings('ignore')
    try:
        import dynaphopy
    except Exception as e:
        raise HarnessError('cannot import dynaphopy: %r' % (e,))
    if not os.path.abspath(dynaphopy.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError('dynaphopy imported from ' + dynaphopy.__file__)
    import dynaphopy.displacements as d
    if not d.__file__.startswith(scratch()):
        raise HarnessError('extension imported from ' + d.__file__)
    return dynaphopy
