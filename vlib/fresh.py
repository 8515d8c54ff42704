"""Results from a process that has converted nothing before: the worker that
runs fresh() never calls the package itself, it forks a child for each case."""
import os
import pickle
import select
import time
from . import boot, core

LIMIT = 150


def outcome(case):
    """(kind, value) of one case: ('ok', text) or ('raises', exception type)."""
    s, t, x, kw = case
    T = boot.get()
    try:
        return ('ok', T.process(s, t, x, **kw))
    except core.Hang:
        raise
    except Exception as e:
        return ('raises', type(e).__name__)


def forked(fn, *a):
    """fn(*a) in a forked child; its pickled result. None: no answer in time."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(fn(*a)))
            code = 0
        except BaseException as e:
            try:
                import traceback
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.time() + LIMIT
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, 9)
                return None
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf += b
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    try:
        return pickle.loads(buf)
    except Exception:
        return None
