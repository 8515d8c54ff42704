"""Calling the code under test."""
from . import boot
from .core import Hang

NO = object()


def tr(rec, s, t, text, **kw):
    """transliterate.process; an exception or a non-string is a violation."""
    T = boot.get()
    kw.setdefault('nativize', False)
    try:
        r = T.process(s, t, text, **kw)
    except Hang:
        raise
    except boot.NetworkAttempt:
        return None
    except Exception as e:
        rec.violation('raised', src=s, tgt=t, text=text[:200], kw=repr(kw),
                      error='%s: %s' % (type(e).__name__, str(e)[:200]))
        return None
    if not isinstance(r, str):
        rec.violation('not a string', src=s, tgt=t, text=text[:200], kw=repr(kw), got=repr(r)[:80])
        return None
    return r


def lines(rec, s, t, words, **kw):
    """Convert each word; one call for all, one per line. Falls back to single
    calls if the number of lines is not preserved."""
    if not words:
        return []
    r = tr(rec, s, t, '\n'.join(words), **kw)
    if r is None:
        return None
    out = r.split('\n')
    if len(out) != len(words):
        rec.count['line count changed'] += 1
        out = [tr(rec, s, t, w, **kw) for w in words]
        if any(o is None for o in out):
            return None
    return out


def singles(rec, s, t, words, **kw):
    out = [tr(rec, s, t, w, **kw) for w in words]
    return None if any(o is None for o in out) else out
