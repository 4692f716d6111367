"""Makes the code under test importable: always the current working tree of /repo."""
import os
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

# Never read or write cached bytecode: the source text decides.
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), 'verif-no-such-pycache-%d' % os.getpid())
if REPO not in sys.path:
    sys.path.insert(0, REPO)
