"""Hostile text: anything a user may paste."""
import unicodedata
from . import core, rules

BLOCKS = [(0x20, 0x7f), (0xa0, 0x250), (0x250, 0x370), (0x370, 0x500), (0x530, 0x700), (0x700, 0x900),
          (0x900, 0x1100), (0x1200, 0x1400), (0x1700, 0x1b00), (0x1b00, 0x1d00), (0x1d00, 0x2000), (0x2000, 0x2100),
          (0x2100, 0x2c00), (0x2c00, 0x3100), (0x3100, 0x4e00), (0xa000, 0xac00), (0xe000, 0xe100), (0xf000, 0xf010),
          (0xfb00, 0xfe00), (0xfe00, 0x10000), (0x10300, 0x10c00), (0x11000, 0x12000), (0x16a00, 0x17000),
          (0x1e800, 0x1ea00), (0x1f300, 0x1f700)]
SPECIAL = list('\\.^$*+?{}[]()|/\'"`~!@#%&-_=<>,;:\0\t\n\r\x0b\x1f\x7f\x85\u00a0\u200b\u200c\u200d\u200e\u2028\u2029\ufeff\ufffd\u02bd\u1e7f\u1e7e\uf000\u12ba\u05cc\u05cd\u02bb\u02de\u00d7')
PHRASES = ['\\1', '\\g<0>', '(?:', '[', '(', ')', '##', '## ##', '{}', '()', '%s', '{0}', '\\', '\\\\', '\r\n', '  ', 'a_i', "\\'", '\\"', '\\_', '\\m+', '^', '||', '|',
           '\u02bb\u02bb', '...', '्', '्््', 'ं', 'िि', 'OM', 'ॐ', '॥', '१२३', '0', '<b>', '&amp;', 'http://x.y/?a=b', 'null']
OWN = {**core.spec('alphabet.json'), **core.spec('alphabet2.json')}


def own_block(s):
    """Characters around the script's own: same blocks of 128."""
    a = OWN.get(s, '')
    blocks = sorted({ord(c) >> 7 for c in a if ord(c) > 0x7f})
    return blocks


def text(rng, s, t, surrogates=False):
    parts = []
    sb, tb = own_block(s), own_block(t)
    sa, ta = OWN.get(s, ''), OWN.get(t, '')
    for _ in range(rng.randint(1, 14)):
        k = rng.random()
        if k < .3 and sa:
            parts.append(''.join(rng.choice(sa) for _ in range(rng.randint(1, 5))))
        elif k < .45 and sb:
            b = rng.choice(sb)
            parts.append(''.join(chr((b << 7) + rng.randrange(128)) for _ in range(rng.randint(1, 4))))
        elif k < .52 and tb:
            b = rng.choice(tb)
            parts.append(''.join(chr((b << 7) + rng.randrange(128)) for _ in range(rng.randint(1, 3))))
        elif k < .6 and ta:
            parts.append(rng.choice(ta))
        elif k < .7:
            parts.append(rng.choice(SPECIAL))
        elif k < .8:
            parts.append(rng.choice(PHRASES))
        elif k < .9:
            lo, hi = rng.choice(BLOCKS)
            parts.append(''.join(chr(rng.randrange(lo, hi)) for _ in range(rng.randint(1, 3))))
        else:
            parts.append(''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(rng.randint(1, 6))))
        if rng.random() < .25:
            parts.append(rng.choice((' ', '\n', '  ')))
    r = ''.join(parts)
    return ''.join(c for c in r if not 0xd800 <= ord(c) < 0xe000) if not surrogates else r


FIXED = ['', ' ', '\n', '\n\n', '\t', '\0', '\\', '(', '[', ')', '*', '^', '|', '||', '\u200d', '\u200c', '\u094d', '\u0301', '\ufeff',
         '\U0010ffff', '\ufffe', '##', '#', '_', "'", '"', '.', '..', '0', '7', 'a', 'A', 'h', 'OM', '\u0950']
