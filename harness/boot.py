"""Process bootstrap: environment, import paths, hypothesis.

Must be imported before jax. Imports the code under test from $VERIF_REPO/src
(default /repo/src) without writing bytecode there.
"""

import importlib.machinery
import importlib.util
import os
import sys

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
SRC = os.path.join(REPO, 'src')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True


def setup_env(opt_level=0, x64=False):
    flags = [
        f'--xla_backend_optimization_level={opt_level}',
        '--xla_cpu_multi_thread_eigen=false',
        'intra_op_parallelism_threads=1',
    ]
    os.environ['XLA_FLAGS'] = ' '.join(flags)
    os.environ['JAX_PLATFORMS'] = 'cpu'
    os.environ.setdefault('PYTHONHASHSEED', '0')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    # jax settings which would change the meaning of the checks
    for v in ('JAX_ENABLE_X64', 'JAX_DISABLE_JIT', 'JAX_DEBUG_NANS'):
        os.environ.pop(v, None)
    if x64:
        os.environ['JAX_ENABLE_X64'] = '1'


class _VendorFinder:
    """Finds only hypothesis and its dependencies in the tools environment."""

    NAMES = {'hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_ftz_detector',
             '_hypothesis_pytestplugin', '_hypothesis_globals'}

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if path is None and (top in self.NAMES or top.startswith('_hypothesis')):
            return importlib.machinery.PathFinder.find_spec(name, [self.path])
        return None


def setup_paths():
    if SRC not in sys.path[:1]:
        sys.path.insert(0, SRC)
    if importlib.util.find_spec('hypothesis') is None:
        for cand in (
            '/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2],
        ):
            if os.path.isdir(os.path.join(cand, 'hypothesis')):
                sys.meta_path.append(_VendorFinder(cand))
                break
        else:
            raise RuntimeError('hypothesis not found')


def import_sut():
    import bartz
    f = os.path.realpath(bartz.__file__)
    if not f.startswith(SRC + os.sep):
        raise RuntimeError(f'bartz imported from {f}, expected under {SRC}')
    return bartz
