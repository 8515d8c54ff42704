"""Numbers, verse numbers, Vedic accents and Om, in and between words."""
import functools
from . import call, core, lang, rules

HUB = 'Devanagari'
ACC = '\u0951\u0952\u1cda'              # udatta, anudatta, double udatta
GUM = '\ua8f3\ua8f4'                    # gomukha anusvaras
OM = '\u0950'
ONE = '\u0967'
# write a sign of their own in place of the space
SEP = {'Bhaiksuki': '\U00011c43', 'Kaithi': '\u2e31', 'Khojki': '\U0001123a', 'PhagsPa': '\u1802', 'Tibetan': '\u0f0b', 'TibetanLoC': '\u0f0b', 'OldPersian': '\U000103d0'}


def unspaced(t, x):
    """Spaces are not compared where a sign takes their place in some contexts."""
    return x.replace(SEP[t], ' ').replace(' ', '') if t in SEP else x


KINDS = ('number', 'verse', 'accent', 'gomukha', 'om')


@functools.lru_cache(None)
def spec():
    return core.spec('signs.json')


def number(rng):
    k = rng.random()
    if k < .3:
        return rng.choice(lang.DIG)
    if k < .4:
        return rng.choice(lang.DIG[1:]) + lang.DIG[0] * rng.randint(1, 4)
    return rng.choice(lang.DIG[1:]) + ''.join(rng.choice(lang.DIG) for _ in range(rng.randint(1, 7)))


def value(n):
    return int(''.join(str(lang.DIG.index(c)) for c in n))


def aksharas(toks):
    """Tokens joined to written syllables, each of which may carry an accent."""
    out, cur = [], ''
    for k, x in enumerate(toks):
        cur += x
        nxt = toks[k + 1] if k + 1 < len(toks) else ''
        if x.endswith(lang.VIR) or nxt and nxt in lang.AY:
            continue
        out.append(cur)
        cur = ''
    return out, cur


# marks an accent is not put on; Unicode puts it before the macron of long vocalic vowels
LONG = lang.AY + list('\u0944\u0963\u0960\u0961')


def accented(rng, inv, marks=ACC):
    """(word with accents, the word without)"""
    for _ in range(60):
        toks = inv.tokens(rng)
        if not inv.allows(lang.spell(toks)) or lang.spell(toks) != ''.join(toks):
            continue
        sy, rest = aksharas(toks)
        a = ''
        n = 0
        for x in sy:
            a += x
            if x[-1] not in LONG and rng.random() < .5:
                a += rng.choice(marks)
                n += 1
        if n:
            return a + rest, ''.join(sy) + rest
    return None


def plain(rng, inv):
    w = inv.words(rng, 1, 3)
    return w[0] if w else '\u0915'


def texts(rng, inv, kind, n):
    """(text, parts): parts are the pieces a converted text is made of."""
    out = []
    for _ in range(n):
        w, v = plain(rng, inv), plain(rng, inv)
        if kind == 'number':
            x = rng.choice(([w, ' ', number(rng)], [number(rng), ' ', w], [number(rng), ' ', number(rng)], [w, ' ', number(rng), '\t', v], [number(rng)]))
        elif kind == 'verse':
            x = rng.choice(([w, ' ', '\u0965', ' ', number(rng), ' ', '\u0965'], [w, ' ', '\u0964', ' ', v, ' ', '\u0965', number(rng), '\u0965'], [number(rng), '\u0964', ' ', w]))
        elif kind == 'om':
            x = rng.choice(([OM], [OM, ' ', w], [w, ' ', OM], [w, ' ', OM, ' ', v], [OM, ' ', OM], [OM, ' ', OM, ' ', OM, ' ', w], [w, '\t', OM, '  ', v], [OM, ' ', ONE]))
        else:
            x = accented(rng, inv, ACC if kind == 'accent' else GUM)
            if x is None:
                continue
            out.append(x)
            continue
        out.append((''.join(x), x))
    return out


def expected(t, nat, kind, x, conv):
    """The converted text, put together from its parts."""
    d = spec()['scripts'][t]['nat' if nat else 'plain']
    out = ''
    for p in x:
        if p[0] in lang.DIG:
            out += additive(p, t) if t in ADD else ''.join(d['digits'][lang.DIG.index(c)] for c in p)
        elif p in ('\u0964', '\u0965'):
            out += d['danda'][p == '\u0965']
        elif p == OM:
            out += d['om']
        elif p.isspace():
            out += p
        else:
            out += conv[p]
    return out


ADD = ('Kharoshthi', 'OldPersian')


def additive(n, t):
    """Numbers of these scripts: so many thousands, hundreds, twenties, tens, ones."""
    n = value(n) if isinstance(n, str) else n
    if t == 'OldPersian':
        h, n = divmod(n, 100)
        w, n = divmod(n, 20)
        x, n = divmod(n, 10)
        d, n = divmod(n, 2)
        return '\U000103d5' * h + '\U000103d4' * w + '\U000103d3' * x + '\U000103d2' * d + '\U000103d1' * n
    th, n = divmod(n, 1000)
    h, n = divmod(n, 100)
    w, n = divmod(n, 20)
    x, n = divmod(n, 10)
    f, n = divmod(n, 4)
    out = ''
    if th:
        out += (additive(th, t) if th > 1 else '') + '\U00010a47'
    if h:
        out += (additive(h, t) if h > 1 else '') + '\U00010a46'
    return out + '\U00010a45' * w + '\U00010a44' * x + '\U00010a43' * f + ['', '\U00010a40', '\U00010a41', '\U00010a42'][n]


def strip(x, marks):
    for m in sorted(marks, key=len, reverse=True):
        if m:
            x = x.replace(m, '')
    return x


def times(x, marks):
    n = 0
    for m in sorted(marks, key=len, reverse=True):
        if m:
            n += x.count(m)
            x = x.replace(m, '')
    return n


# read the accents of words like these in ways of their own, when not to Devanagari
OWN = ('BalineseSimpleRomanLoC', 'BalineseRomanLoC', 'JavaneseSimpleRomanLoC', 'JavaneseRomanLoC', 'Avestan', 'RomanKana', 'Ariyaka', 'GurmukhiLoC')


def same(kind, s, t):
    """Does the law of one result from any script cover this kind of sign?"""
    if s in ('Hebrew', 'Shahmukhi', 'Urdu', 'Thaana') or t in ('Shahmukhi', 'Urdu', 'Thaana') and kind in ('number', 'verse'):
        return False
    if kind == 'accent':
        return s not in OWN
    if kind == 'om':
        return not (rules.latin(s) and rules.latin(t)) and s != 'Avestan' and t not in ('RomanSemitic', 'Aksharaa')
    if kind == 'verse':
        return t not in ('ShanLoCRomanLoC', 'WX-kok')
    return True
