"""Set up the process that runs code under test: seams first, then import everything that is ever imported lazily."""
import os
import sys
import warnings

os.environ.setdefault('MPLBACKEND', 'Agg')
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[_v] = '1'
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa

_done = False


def setup():
    global _done
    if _done:
        return
    _done = True
    core.install_seams()
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    import numpy, scipy, scipy.sparse, scipy.sparse.linalg, scipy.sparse.csgraph, scipy.spatial, scipy.special, scipy.ndimage  # noqa
    import numpy_indexed, pycosat, funcsigs  # noqa
    import importlib
    pk = os.path.join(core.REPO, 'pycomplex')
    for root, dirs, files in os.walk(pk):
        dirs[:] = sorted(d for d in dirs if d not in ('test', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and f != 'experiment.py':
                rel = os.path.relpath(os.path.join(root, f), core.REPO)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                importlib.import_module(rel)
    import pycomplex
    assert os.path.dirname(os.path.abspath(pycomplex.__file__)) == pk.rstrip('/'), pycomplex.__file__
