"""Texts found to reach the rewriting rules of the library, one by one, with the
conversion recorded for each and the laws it was found to obey (spec/triggers.json.gz)."""
import unicodedata
from . import call, cases, core, rules, sem

SC = cases.SC
_T = {}


def all_():
    if not _T:
        d = core.spec('triggers.json.gz')
        _T['cases'] = [(s, t, x, d['options'][k], y, l) for s, t, x, k, y, l in d['cases']]
        _T['rules'] = d['rules']
        _T['words'] = d['words']
    return _T['cases']


def plain(kw):
    return not kw.get('post_options') and not kw.get('pre_options')


def raw(kw):
    return plain(kw) and not kw.get('nativize', True)


def one(rec, s, t, x, kw):
    return call.tr(rec, s, t, x, **kw)


# each law says None, or what is wrong: (kind, got, expected)
def back(rec, s, t, x, kw, y):
    z = call.tr(rec, t, s, y)
    return None if z == x else ('does not come back', z, x)


def again(rec, s, t, x, kw, y):
    """Read, written and read: the written form is stable."""
    z = call.tr(rec, t, s, y)
    w = z is not None and call.tr(rec, s, t, z)
    return None if w == y else ('written otherwise when read back', w, y)


def hub(rec, s, t, x, kw, y):
    d = call.tr(rec, s, 'Devanagari', x)
    w = d is not None and call.tr(rec, 'Devanagari', t, d)
    return None if w == y else ('otherwise by way of Devanagari', w, y)


def form(rec, s, t, x, kw, y):
    for f in ('NFD', 'NFC'):
        u = unicodedata.normalize(f, x)
        if u != x:
            z = call.tr(rec, s, t, u, **kw)
            if z != y:
                return 'another Unicode form is read otherwise', z, y
    return None


def both(rec, s, t, x, kw, y, n=2):
    z = call.tr(rec, s, t, '\n'.join([x] * n), **kw)
    return None if z == '\n'.join([y] * n) else ('otherwise when repeated', z[:400] if z else z, y + '\n' + y + ' (%d times)' % n)


def hubback(rec, z, w):
    y = call.tr(rec, 'Devanagari', z, w)
    v = y is not None and call.tr(rec, z, 'Devanagari', y)
    return None if v == w else ('does not come back', y, v, w)


def path(rec, s, t, w):
    d = call.tr(rec, 'Devanagari', t, w)
    x = call.tr(rec, 'Devanagari', s, w)
    v = x is not None and call.tr(rec, s, t, x)
    return None if v == d else ('otherwise by way of ' + s, x, v, d)


LAWS = {'b': back, 'a': again, 'h': hub, 'n': form, 'l': both}
INDIC, LATIN = set(SC['indic']), set(SC['latin'])


def applies(k, s, t, kw):
    if k in 'ln':
        return True
    return raw(kw) and s != t and s in INDIC | LATIN and t in INDIC | LATIN and (k != 'h' or 'Devanagari' not in (s, t))


def semitic(s):
    return s in SC['semitic'] or s in SC['semitic_iso']


SIGNS = set('\u0951\u0952\u1cda\ua8f3↑↓ॐ।॥') | set('\U00010a40\U00010a41\U00010a42\U00010a43\U00010a44')


def sign(c):
    return c in SIGNS or unicodedata.category(c)[0] == 'N' or c == '|'


def judge(rec, a):
    """a: index list, laws to judge ('' for the recorded conversion itself)."""
    idx, laws = a
    for i in idx:
        s, t, x, kw, y, held = all_()[i]
        got = one(rec, s, t, x, kw) if not laws or 'l' in laws or set(laws) & set(held) else None
        if not laws:
            if got is None:
                continue
            if got != y:
                rec.violation('the text is converted otherwise than recorded', src=s, tgt=t, text=x, args=kw, got=got, expected=y)
            else:
                rec.ok(('trigger', i))
                rec.count['rules: recorded conversions'] += 1
            continue
        for k in laws:
            if k in held and got is not None:
                bad = LAWS[k](rec, s, t, x, kw, got) if k != 'l' or i % 7 else both(rec, s, t, x, kw, got, 150)
                if bad:
                    rec.violation(bad[0], src=s, tgt=t, text=x, args=kw, via=got, got=bad[1], expected=bad[2])
                else:
                    rec.ok(('trigger', k, i))
                    rec.count['rules: ' + LAWS[k].__name__] += 1


def jobs(want, laws='', size=60):
    """Job arguments for the cases want(s, t, kw) speaks of."""
    idx = [i for i, c in enumerate(all_()) if want(c[0], c[1], c[3], c[2]) and (not laws or set(laws) & set(c[5]))]
    return [(idx[i:i + size], laws) for i in range(0, len(idx), size)]


def judge_words(rec, idx):
    """Words of rules: round trips, and the same from another script."""
    all_()
    for i in idx:
        k, s, t, w = _T['words'][i]
        bad = hubback(rec, s, w) if k == 'r' else path(rec, s, t, w)
        if bad:
            rec.violation(bad[0], src='Devanagari', tgt=t or s, text=w, via=bad[1], got=bad[2], expected=bad[3])
        else:
            rec.ok(('trigger word', i))
            rec.count['rules: words'] += 1


def run_words(ctx, want):
    all_()
    idx = [i for i, w in enumerate(_T['words']) if want(w[0], w[1], w[2])]
    ctx.map('vlib.trig', 'judge_words', [idx[i:i + 60] for i in range(0, len(idx), 60)])
    ctx.extra['words of rules'] = len(idx)


def run(ctx, want, laws='', share=1):
    """share: one case of so many on quick"""
    js = jobs(want, laws)
    if ctx.quick and share > 1:
        js = [(idx[ctx.seed % share::share], l) for idx, l in js]
    ctx.map('vlib.trig', 'judge', js)
    ctx.extra['rules reached by texts of their own'] = _T['rules']
    ctx.extra['texts reaching rules'] = sum(len(j[0]) for j in js)
