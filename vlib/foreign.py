"""Text that belongs to neither script: where it may stand and what must
become of it."""
from . import call, core, rules

FOR = list('漢字한글語😀★€™→∞※①♥☃\u10e5\u10d0\u05d0'[:-1]) + ['\U0001d11e', '\u0e3f', '\u2200', '\u1200', '\ua015', '\U00020000', '\u2588', '\u3007']
PUN = list('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~') + list('\u00a0\u2003–—“”‘’…«»•¶§°\u2018')
ASC = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
SEP = {'Bhaiksuki': '\U00011C43', 'Kaithi': '\u2E31', 'Khojki': '\U0001123A', 'OldPersian': '\U000103D0',
       'Tibetan': '\u0F0B', 'TibetanLoC': '\u0F0B', 'PhagsPa': ' \u1802 '}


def observe(rec, s, t, nat, label, chars, per):
    """yield (char, context, text, got, expected) for each char in several contexts."""
    inv = rules.inventories()
    m = inv[t] if s == 'Devanagari' else inv[s] if t == 'Devanagari' else rules.pair_inv(s, t)
    if not m.usable():
        return
    rng = core.rng('foreign', s, t, nat, label)
    hub = m.words(rng, 8)
    x = hub if s == 'Devanagari' else call.singles(rec, 'Devanagari', s, hub)
    if x is None:
        return
    y = call.singles(rec, s, t, x, nativize=bool(nat))
    if y is None:
        return
    sp = '\n' if s == 'PhagsPa' or t in SEP else ' '
    for ch in chars:
        for _ in range(per):
            a, b, c = (rng.randrange(len(x)) for _ in range(3))
            for k, (i, e) in enumerate((
                    (ch, ch),
                    (ch + ch + ch, ch + ch + ch),
                    (x[a] + sp + ch + sp + x[b], y[a] + sp + ch + sp + y[b]),
                    (x[a] + ch + sp + x[b], y[a] + ch + sp + y[b]),
                    (x[a] + sp + ch + x[b], y[a] + sp + ch + y[b]),
                    (ch + sp + x[c] + sp + ch, ch + sp + y[c] + sp + ch))):
                g = call.tr(rec, s, t, i, nativize=bool(nat))
                if g is not None:
                    yield ch, k, i, g, e
