"""C16: conversion between the Semitic scripts."""
import re
from vlib import boot, call, cases, core, effects, nativ, rules, sem, trig

SEP = [' ', '  ', ', ', '. ', '! ', ': ', ' (', ') ', '\n', '\t', ' - ', ' 5 ', '/', ' «', '» ', ' “', '” ', '…']
IND_NOT = ('BatakKaro', 'Lao2', 'RomanSemitic', 'Hebrew', 'Thaana', 'Urdu', 'Shahmukhi')
# a final letter after the same letter with a mark
DOUBLED = re.compile('(?:כ%sך|מ%sם|נ%sן|פ%sף|צ%sץ)'.replace('%s', '[\u0591-\u05c7]+') + '[\u0591-\u05c7]*$')


def scripts():
    return sorted(sem.spec()['scripts'])


def lines_of(s):
    return effects.table()['sem'] if s == 'Latn' else effects.table()['dev'] if s == 'Devanagari' else effects.table()['src'][s][:450]


def table(rec, x):
    """Every letter, written and read."""
    for what, s, t in (('write', 'Latn', x), ('read', x, 'Latn')):
        for k, w in sem.spec()[what][x].items():
            g = call.tr(rec, s, t, k)
            if g is None:
                continue
            rec.ok((what, x, k))
            rec.count['letters written and read'] += 1
            if g != w:
                rec.violation('letter', src=s, tgt=t, text=k, got=g, expected=w)


def blocks(rec, l):
    for s, t, h in l:
        x = lines_of(s)
        y = call.lines(rec, s, t, x)
        if y is None:
            continue
        for i in range(0, len(x), 25):
            if nativ.digest(y[i:i + 25]) != h[i // 25 * 8:i // 25 * 8 + 8]:
                rec.violation('reference text (one of these words)', src=s, tgt=t, words=x[i:i + 25], got=y[i:i + 25])
            else:
                rec.ok((s, t, i), len(x[i:i + 25]))
                rec.count['words against the reference'] += len(x[i:i + 25])


def back(rec, a):
    """Letters a script tells apart are read back."""
    x, k, n = a
    rng = core.rng('C16b', x, k)
    ws = sem.of(x).words(rng, n)
    y = call.lines(rec, 'Latn', x, ws)
    z = y and call.lines(rec, x, 'Latn', y)
    if not z:
        return
    for w, a_, b in zip(ws, y, z):
        if w != b:
            rec.violation('round trip', script=x, text=w, written=a_, read=b)
        else:
            rec.ok((x, w))
            rec.count['words written and read back'] += 1
    rec.sample({'script': x, 'word': ascii(ws[0]), 'written': ascii(y[0])})


def hub(rec, a):
    """From one script to the other is the same as by way of the
    transliteration, and comes back."""
    s, t, n = a
    rng = core.rng('C16h', s, t)
    L = sem.of(s).meet(sem.of(t))
    ws = L.words(rng, n)
    u = call.lines(rec, 'Latn', s, ws)
    v = u and call.lines(rec, s, t, u)
    x = v and call.lines(rec, 'Latn', t, ws)
    z = x and call.lines(rec, t, 'Latn', v)
    if not z:
        return
    for w, a_, p, q, r in zip(ws, u, v, x, z):
        if p != q:
            rec.violation('direct and by the transliteration', src=s, tgt=t, word=w, text=a_, got=p, by_latn=q)
        elif r != w:
            rec.violation('round trip over two scripts', src=s, tgt=t, word=w, text=a_, got=p, read=r)
        else:
            rec.ok((s, t, w))
            rec.count['words through two scripts'] += 1


def ends(rec, a):
    """Final forms stand at the end of words, whatever follows."""
    x, k = a
    rng = core.rng('C16e', x, k)
    L = sem.of(x)
    for _ in range(25):
        parts = []
        for _ in range(rng.randint(2, 4)):
            parts += [L.word(rng), rng.choice(SEP)]
        parts = parts[:-1] if rng.random() < .7 else parts
        g = call.tr(rec, 'Latn', x, ''.join(parts))
        if g is None:
            continue
        if x == 'Hebr' and any(DOUBLED.search(call.tr(rec, 'Latn', x, p) or '') for p in parts[::2]):
            continue  # known_findings.json
        w = ''.join(p if i % 2 and not p.strip() else call.tr(rec, 'Latn', x, p) or '' for i, p in enumerate(parts))
        if x == 'Ugar':  # its words are parted by a sign
            w = w.replace(' ', '\U0001039f')
        if g != w:
            rec.violation('words in a text', tgt=x, text=''.join(parts), got=g, word_by_word=w)
        else:
            rec.ok((x, ''.join(parts)))
            rec.count['texts of several words'] += 1


def indic(rec, a):
    """Indic text gives the same Semitic text from whichever script."""
    s, t, n = a
    rng = core.rng('C16i', s, t)
    ws = rules.inventories()[s].words(rng, n)
    u = ws and call.lines(rec, 'Devanagari', s, ws)
    v = u and call.lines(rec, s, t, u)
    x = v and call.lines(rec, 'Devanagari', t, ws)
    if not x:
        return
    for w, a_, p, q in zip(ws, u, v, x):
        if p != q:
            rec.violation('depends on the source', src=s, tgt=t, word=w, text=a_, got=p, from_devanagari=q)
        else:
            rec.ok((s, t, w))
            rec.count['words from two Indic scripts'] += 1


def run(ctx):
    boot.get()
    ctx.rule = 'words between Semitic scripts judged by a reference, by reading back or by another way of converting them'
    S = scripts()
    rng = core.rng('C16')
    ctx.map(__name__, 'table', S)
    b = list(sem.spec()['blocks'])
    rng.shuffle(b)
    ctx.map(__name__, 'blocks', [b[i:i + 20] for i in range(0, len(b), 20)])
    ctx.map(__name__, 'back', [(x, k, 400) for x in S for k in range(ctx.n(3, 60))])
    bad = {tuple(p) for p in sem.spec()['hub_not']}
    ctx.map(__name__, 'hub', [(s, t, ctx.n(60, 1200)) for s in S for t in S if s != t and (s, t) not in bad])
    ctx.map(__name__, 'ends', [(x, k) for x in S for k in range(ctx.n(4, 60))])
    p = [(s, t, ctx.n(15, 120)) for s in rules.inventories() if s not in IND_NOT and s in cases.ALL for t in S]
    ctx.map(__name__, 'indic', rng.sample(p, 1500) if ctx.quick else p)
    trig.run(ctx, lambda s, t, kw, x: trig.semitic(s) or trig.semitic(t))
    ctx.minimum = 20000
