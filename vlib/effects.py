"""Running an option on a list of lines."""
import functools
import gzip
import json
import os
from . import boot, core

SKIP = ('KhmerWordSplit',)       # the word splitter is another package


def run(s, t, lines, kind, o, nativize=False):
    """The text with option o (None: with an option that does nothing, since
    source = target is left alone without options)."""
    T = boot.get()
    kw = {kind + '_options': [o or 'default']}
    try:
        return T.process(s, t, '\n'.join(lines), nativize=nativize, **kw)
    except core.Hang:
        raise
    except Exception as e:
        return ('raised', '%s: %s' % (type(e).__name__, e))


@functools.lru_cache(None)
def table():
    with gzip.open(os.path.join(core.HERE, 'spec', 'effects.json.gz')) as f:
        return json.loads(f.read().decode('utf-8'))
