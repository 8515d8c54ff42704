"""C05: conversion is compositional: words and lines convert on their own."""
import unicodedata
from vlib import boot, call, cases, core, hostile, lang, rules, trig

# targets that write an Indic space as their own word separator
SEP = {'Bhaiksuki': '\U00011C43', 'Kaithi': '\u2E31', 'Khojki': '\U0001123A', 'OldPersian': '\U000103D0',
       'Tibetan': '\u0F0B', 'TibetanLoC': '\u0F0B', 'PhagsPa': ' \u1802 '}
NOSPACE = ('PhagsPa',)       # writes its syllables apart: as a source, spaces join
JOIN = {('Urdu', 'PhagsPa'), ('Shahmukhi', 'PhagsPa'), ('Hebrew', 'PhagsPa')}   # a word before an initial u, U is joined to it
MIX = (' ', ' ', ' ', '  ', '\n', '\n', '\n\n', ' \n', '\t', '   ')
LINES = ('\n', '\n', '\n\n')


HEBR = ('Urdu', 'Shahmukhi', 'Thaana')     # to Hebrew: the recorded finding about final letters


def seps(s, t):
    if s in NOSPACE or (s, t) in JOIN:
        return LINES, {}
    if t in SEP:
        return (' ', '\n'), {' ': SEP[t]}
    return MIX, {}


def job(rec, a):
    s, t, nat, n, ntext, salt = a
    inv = rules.inventories()[t if s == 'Devanagari' else s] if 'Devanagari' in (s, t) else rules.pair_inv(s, t)
    if not inv.usable():
        rec.count['pair with nothing in common'] += 1
        return
    rng = core.rng('C05', s, t, nat, salt)
    hub = inv.words(rng, n)
    hub += [''.join(lang.DIG[int(d)] for d in str(rng.randint(1, 9999))) for _ in range(max(1, n // 12))]
    rng.shuffle(hub)
    xs = hub if s == 'Devanagari' else call.singles(rec, 'Devanagari', s, hub)
    if xs is None:
        return
    xs = [x for x in xs if x and x.strip()]
    ys = call.singles(rec, s, t, xs, nativize=bool(nat))
    if ys is None:
        return
    ms, rep = seps(s, t)
    for k in range(ntext):
        m = rng.randint(2, 9) if k else 4 * len(xs)
        idx = [rng.randrange(len(xs)) for _ in range(m)]
        sp = [rng.choice(ms) for _ in range(m - 1)] + ['']
        text = ''.join(xs[i] + p for i, p in zip(idx, sp))
        want = ''.join(ys[i] + rep.get(p, p) for i, p in zip(idx, sp))
        got = call.tr(rec, s, t, text, nativize=bool(nat))
        if got is None:
            return
        if got != want:
            blame(rec, s, t, nat, xs, ys, idx, sp, rep, text, got, want)
        else:
            rec.ok((s, t, nat, text))
            rec.count['words in context'] += m
    rec.sample({'from': s, 'to': t, 'nativize': bool(nat), 'text': text[:120], 'equals its words converted one by one': got[:120]})


def blame(rec, s, t, nat, xs, ys, idx, sp, rep, text, got, want):
    for i in range(len(idx) - 1):
        a, b, p = idx[i], idx[i + 1], sp[i]
        g = call.tr(rec, s, t, xs[a] + p + xs[b], nativize=bool(nat))
        w = ys[a] + rep.get(p, p) + ys[b]
        if g is not None and g != w:
            rec.violation('the neighbour changes a word', src=s, tgt=t, nativize=bool(nat), text=xs[a] + p + xs[b], got=g, expected=w)
            return
    rec.violation('the text around changes a word', src=s, tgt=t, nativize=bool(nat), text=text[:300], got=got[:300], expected=want[:300])


# raw words: anything in the letters of a script, each on its own line
KANA = ('Hiragana', 'Katakana')       # their reading is judged by C23
RAW = [s for s in cases.ALL if hostile.OWN.get(s) and not s.startswith(('Syr', 'Hebr', 'ISO259')) and s not in KANA]   # Syriac, Hebrew: read by whether the text has vowel signs at all
NOT_RAW = ('Hebrew', 'Hebr', 'Nbat', 'OldPersian', 'Kharoshthi', 'PhagsPa')    # final letters: the recorded finding; additive numerals; its own blanks


def raw(rec, a):
    s, t, nat, n, ntext, salt = a
    rng = core.rng('C05 raw', s, t, nat, salt)
    al = hostile.OWN[s]
    if s in ('Urdu', 'Shahmukhi'):
        al = al.replace('\u06be', '')    # never begins a word
    ws = []
    while len(ws) < n:
        w = ''.join(rng.choice(al) for _ in range(rng.randint(1, 4)))
        if w.strip() == w and not any(c.isspace() for c in w):
            ws.append(w)
    ys = [call.tr(rec, s, t, w, nativize=bool(nat)) for w in ws]
    # a word that comes out beginning with a mark would be joined to the line before it
    ok = [i for i in range(n) if ys[i] and unicodedata.category(ys[i][0])[0] != 'M' and ys[i][0] not in '\u200c\u200d'
          and not any(c.isspace() for c in ys[i])]
    if len(ok) < 2:
        rec.count['raw words without a result'] += 1
        return
    for k in range(ntext):
        idx = [rng.choice(ok) for _ in range(2 if k < ntext // 2 else rng.randint(3, 10))]
        text = '\n'.join(ws[i] for i in idx)
        want = '\n'.join(ys[i] for i in idx)
        got = call.tr(rec, s, t, text, nativize=bool(nat))
        if got is None:
            return
        if got == want:
            rec.ok((s, t, nat, text))
            rec.count['raw words in context'] += len(idx)
            continue
        for i, j in zip(idx, idx[1:]):
            g = call.tr(rec, s, t, ws[i] + '\n' + ws[j], nativize=bool(nat))
            if g is not None and g != ys[i] + '\n' + ys[j]:
                rec.violation('the line beside changes a word', src=s, tgt=t, nativize=bool(nat), text=ws[i] + '\n' + ws[j], got=g, expected=ys[i] + '\n' + ys[j])
                break
        else:
            rec.violation('the lines around change a word', src=s, tgt=t, nativize=bool(nat), text=text, got=got, expected=want)
        return


def joined(y):
    """Would the mark it begins with be joined to the line before?"""
    return not y or unicodedata.category(y[0])[0] == 'M' or y[0] in '\u200c\u200d'


def rule_words(s):
    """Words that reach rules of their own, reading s or writing it (vlib/trig.py)."""
    ws = {c[2] for c in trig.all_() if c[0] == s} | {c[4] for c in trig.all_() if c[1] == s}
    return sorted(w for w in ws if 0 < len(w) <= 40 and w[0] != '\u06be' and w.strip() and not set(w) & set('\r\n#|.'))


def rule_lines(rec, a):
    """Texts of such words, each on its own line."""
    s, t, nat, salt = a
    rng = core.rng('C05 rules', s, t, nat, salt)
    ws = rule_words(s)
    ys = [call.tr(rec, s, t, w, nativize=bool(nat)) for w in ws]
    ok = [i for i in range(len(ws)) if not joined(ys[i]) and '\n' not in ys[i]]
    if len(ok) < 2:
        return
    for _ in range(2):
        rng.shuffle(ok)
        for k in range(0, len(ok), 6):
            idx = ok[k:k + 6]
            text, want = '\n'.join(ws[i] for i in idx), '\n'.join(ys[i] for i in idx)
            got = call.tr(rec, s, t, text, nativize=bool(nat))
            if got is None:
                return
            if got == want:
                rec.ok((s, t, nat, text))
                rec.count['rules: words in context'] += len(idx)
                continue
            for i in idx:
                for j in idx:
                    g = call.tr(rec, s, t, ws[i] + '\n' + ws[j], nativize=bool(nat))
                    if i != j and g is not None and g != ys[i] + '\n' + ys[j]:
                        rec.violation('the line beside changes a word', src=s, tgt=t, nativize=bool(nat), text=ws[i] + '\n' + ws[j], got=g, expected=ys[i] + '\n' + ys[j])
                        return
            rec.violation('the lines around change a word', src=s, tgt=t, nativize=bool(nat), text=text, got=got, expected=want)
            return


def either(rec, a):
    {'raw': raw, 'rules': rule_lines, 'words': job}[a[0]](rec, a[1:])


def run(ctx):
    boot.get()
    ctx.rule = 'distinct (source, target, nativize, text): a text compared with its words converted one call each'
    ss = rules.covered()
    items = []
    for s in ss:
        for nat in (0, 1):
            items.append(('Devanagari', s, nat, ctx.n(36, 150), ctx.n(12, 60), 0))
            items.append((s, 'Devanagari', nat, ctx.n(20, 100), ctx.n(8, 40), 0))
    rng = core.rng('C05 plan')
    for k in range(ctx.n(1500, 16000)):
        s, t = rng.sample(ss, 2)
        if t == 'Hebrew' and s in HEBR:
            continue
        items.append((s, t, rng.randint(0, 1), 20, 8, k))
    items = [('words',) + i for i in items]
    for s in RAW:
        for k in range(ctx.n(1, 3)):
            for t in rng.sample(cases.ALL, ctx.n(10, 60)):
                if t == s or t in KANA or (s, t) == ('Tamil', 'IPA') or t in NOT_RAW:
                    continue
                items.append(('raw', s, t, rng.randint(0, 1), 24, 24, k))
    for s in RAW:
        if s in ('Itrans', 'RomanKana', 'ISO259'):      # || and OM are read with what is before them; whole-text marks
            continue
        ts = [t for t in cases.ALL if t not in NOT_RAW + KANA + ('Kawi', 'Itrans', 'Soyombo') and t != s and (s, t) != ('Tamil', 'IPA') and 'Tham' not in t]
        for t in rng.sample(ts, ctx.n(3, 16)):
            items.append(('rules', s, t, rng.randint(0, 1), 0))
    rng.shuffle(items)
    ctx.map(__name__, 'either', items)
    trig.run(ctx, lambda s, t, kw, x: s not in KANA and t not in KANA, 'l', 4)
    ctx.extra['runs'] = len(items)
    ctx.minimum = 10000
