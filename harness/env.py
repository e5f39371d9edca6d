"""Import environment for the code under test (always /repo's working tree)."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get('SAMPO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
if 'MPLCONFIGDIR' not in os.environ:
    os.environ['MPLCONFIGDIR'] = tempfile.gettempdir()
warnings.filterwarnings('ignore')
if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load():
    """Import the package in the only order in which it imports; silence its loggers."""
    import sampo.scheduler  # noqa: F401  (must precede sampo.backend.default)
    import logging
    from sampo.base import SAMPO
    logging.disable(logging.CRITICAL)
    return SAMPO
