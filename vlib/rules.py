"""Which pairs of scripts and which words the transliteration laws cover."""
import functools
import re
from . import core, lang

# between two Latin schemes the library writes no separator before h
LL = re.compile('\u094dह|[ॅऍॉऑ]ह')
# short vowels these two read differently for partners other than Devanagari
PX = {'Takri': '[एओ]', 'Aksharaa': '[ऍऑॅॉ]'}
HIDDEN = ('RomanLoC', 'Inter')          # alias resolved per pair / internal


@functools.lru_cache(None)
def scripts():
    return core.spec('scripts.json')


@functools.lru_cache(None)
def _latin():
    return frozenset(scripts()['latin'])


def latin(s):
    return s in _latin()


@functools.lru_cache(None)
def inventories():
    return {s: lang.Inv.of(d) for s, d in core.spec('indic.json').items() if s not in HIDDEN}


@functools.lru_cache(None)
def bad_pairs(kind):
    return frozenset(map(tuple, core.spec('pairs.json')[kind]))


def covered():
    return [s for s in inventories() if s != 'Devanagari']


def pairs(kind):
    """Ordered pairs of distinct scripts (neither the hub) the law covers."""
    bad = bad_pairs(kind)
    ss = covered()
    return [(s, t) for s in ss for t in ss if s != t and (s, t) not in bad]


def pair_inv(s, t):
    inv = inventories()
    m = inv[s].meet(inv[t])
    ex = list(m.excl) + [PX[x] for x in (s, t) if x in PX]
    if latin(s) and latin(t):
        ex.append(LL.pattern)
    return lang.Inv(m.cons, m.vows, m.vir, m.ay, m.cv_bad, ex, m.misc)
