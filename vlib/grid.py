"""What every pair of scripts makes of the same lines of text."""
import functools
import gzip
import json
import os
from . import call, cases, core

BLOCKS, LINES = 10, 20
RULES = (8, 9)         # blocks of words that reach rules (vlib/trig.py)
KANA = ('Hiragana', 'Katakana')


@functools.lru_cache(None)
def table():
    with gzip.open(os.path.join(core.HERE, 'spec', 'grid.json.gz')) as f:
        return json.loads(f.read().decode('utf-8', 'surrogatepass'))


def targets(s):
    return [t for t in cases.ALL if not (s == 'Tamil' and t == 'IPA')]


def blocks(s, t, want):
    """Kana need a dictionary and are slow."""
    return [b for b in want if b == 0 or not {s, t} & set(KANA)]


def digest(ys):
    return '%08x' % (core.h64(*ys) & 0xffffffff)


def block(s, b):
    return table()['lines'][s][b * LINES:b * LINES + LINES]


def observe(rec, s, t, want):
    """{nativize: digests of the blocks of lines}"""
    out = {}
    for nat in (0, 1):
        ds = []
        for b in blocks(s, t, want):
            y = call.tr(rec, s, t, '\n'.join(block(s, b)), nativize=bool(nat))
            ds.append('' if y is None else digest([y]))
        out[str(nat)] = ''.join(x.rjust(8, '-') for x in ds)
    return out
