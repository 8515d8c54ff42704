"""Random calls of the public API, as (source, target, text, keywords)."""
from . import core, hostile, lang, rules

SC = core.spec('scripts.json')
OPT = core.spec('options.json')
ALL = sorted(set(SC['indic']) | set(SC['latin']) | set(SC['semitic']) | set(SC['kana']) | set(SC['semitic_iso']) - {'PersianDMG'} | {'RomanLoC'})
DOC = ('romanNumerals', 'indicNumerals', 'indicDandas', 'romanFullStop', 'RemoveDiacritics')
# the libraries behind these load models and are slow to start
HEAVY = ('KhmerRomanLoC', 'segment', 'Khmer')


def named(rng, kind, s, t):
    """An option for the scripts at hand, or any."""
    if rng.random() < .15:
        return rng.choice(DOC)
    x = (t if kind == 'post' else s).lower()
    own = [o for o in OPT[kind] if x in o.lower()]
    return rng.choice(own) if own and rng.random() < .7 else rng.choice(OPT[kind])


def words(rng, s, n):
    """Text in script s (for an Indic script, from its own alphabet)."""
    a = hostile.OWN.get(s, '')
    return ' '.join(''.join(rng.choice(a) for _ in range(rng.randint(1, 9))) for _ in range(n)) if a else 'abc'


def case(rng, s=None, t=None):
    s = s or rng.choice(ALL)
    t = t or rng.choice(ALL)
    k = rng.random()
    x = words(rng, s, rng.randint(1, 5)) if k < .6 else hostile.text(rng, s, t)
    kw = {'nativize': rng.random() < .5}
    if rng.random() < .4:
        kw['post_options'] = [named(rng, 'post', s, t) for _ in range(rng.randint(1, 3))]
    if rng.random() < .3:
        kw['pre_options'] = [named(rng, 'pre', s, t) for _ in range(rng.randint(1, 2))]
    if rng.random() < .05:
        s = 'autodetect'
        kw.pop('pre_options', None)
    elif rng.random() < .06:
        kw['param'] = rng.choice(('script_code', 'lang_code', 'lang_name'))
        cs = {'script_code': CODES, 'lang_code': LANGS, 'lang_name': NAMES}[kw['param']]
        s, t = rng.choice(cs), rng.choice(cs)
    return (s, t, x, kw)


CODES = ['Deva', 'Taml', 'Telu', 'Knda', 'sa-Deva', 'Arab', 'ur-Arab', 'Latn-IAST', 'Latn-hk', 'Syrc', 'Mymr', 'mnw-Mymr', 'Beng', 'as-Beng', 'Hebr', 'Thai', 'Latn', 'Tibt', 'Nope']
LANGS = ['sa', 'ta', 'te', 'hi', 'pa-Guru', 'pa', 'bn', 'as', 'th', 'my', 'km', 'en', 'la-ISO', 'ur', 'bo', 'sat', 'zz']
NAMES = ['Tamil', 'Sanskrit', 'Hindi', 'Bengali', 'Thai', 'Burmese', 'Telugu', 'Urdu', 'English', 'Tibetan']
