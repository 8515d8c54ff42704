"""Words for nativization, beyond the corpus: contexts of nasals, semivowels,
nukta letters and marks; the same in every run."""
import functools
import gzip
import json
import os
import random
from . import core, corpus, effects, lang

BLOCK = 8


@functools.lru_cache(None)
def many():
    rng = random.Random('nativize corpus')
    nas, sem = list('ङञणनम'), list('यरलवहसशष')
    hard = lang.C33 + ['ळ', 'ऱ', 'ऩ', 'ऴ'] + lang.NUK
    V, VS = lang.V, lang.VS
    out = []
    for n in nas + ['ं', 'ँ', 'ः']:                     # marks and nasals before every letter, at the ends
        for c in hard:
            x = n if n in 'ंँः' else n + '्'
            out += ['क' + x + c, 'अ' + x + c + 'ि', c + 'ु' + x + c, c + 'ा' + x, 'श' + c + x + 'यो']
    for a in sem + nas + ['ब', 'द', 'त']:
        for b in sem + nas + ['ब', 'द', 'त']:
            for v in ('', 'ा', 'ि', 'ो'):
                out += [a + v + b + '्' + a + 'ू', 'क्' + a + '्' + b + v, a + '्' + a + v + b]
    inv = lang.Inv(hard, range(0, 13), True, lang.AY)
    while len(out) < 14000:
        w = lang.spell(inv.tokens(rng))
        if rng.random() < .2:
            w += ' ' + lang.spell(inv.tokens(rng))
        out.append(w)
    out = list(dict.fromkeys(out))
    rng.shuffle(out)
    return out[:len(out) // BLOCK * BLOCK]


@functools.lru_cache(None)
def table():
    with gzip.open(os.path.join(core.HERE, 'spec', 'nativize.json.gz')) as f:
        return json.loads(f.read().decode('utf-8', 'surrogatepass'))


def digest(lines):
    return '%08x' % (core.h64(*lines) & 0xffffffff)
