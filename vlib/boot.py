"""Load aksharamukha from /repo's working tree (never an installed copy, never
stale bytecode), with the one network call of the package replaced by a
recorder that raises."""
import os
import sys
import tempfile
import warnings
import atexit
import shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
_pyc = tempfile.mkdtemp(prefix='verif-pyc-')
_pid = os.getpid()


def _clean():
    if os.getpid() == _pid:
        shutil.rmtree(_pyc, ignore_errors=True)


atexit.register(_clean)
sys.pycache_prefix = _pyc
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')


class NetworkAttempt(Exception):
    pass


def load():
    import requests

    def blocked(*a, **k):
        raise NetworkAttempt('network call: %r' % (a,))
    requests.get = blocked
    requests.post = blocked
    import aksharamukha
    from aksharamukha import transliterate as T
    import logging
    logging.disable(logging.CRITICAL)     # CrunchList logs every script without tables
    where = os.path.realpath(T.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        sys.stderr.write('not the tree under test: %s\n' % where)
        raise SystemExit(3)
    return T


T = None


def get():
    global T
    if T is None:
        T = load()
    return T
