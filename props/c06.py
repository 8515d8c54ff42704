"""C06: text of neither script passes through; nothing internal leaks out."""
from vlib import boot, call, core, foreign, lang, rules

SPEC = core.spec('foreign.json')
ALPHA = core.spec('alphabet.json')
LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
DIGITS = '0123456789'
PREFIX = 2      # index after which contexts attach the mark in front of a word


def special(s, t):
    x = set("_'.") | set(SPEC['source'].get(s, '')) | set(SPEC['target'].get(t, ''))
    if rules.latin(s) or rules.latin(t) or set(x) & set(LETTERS):
        x |= set(LETTERS)
    if rules.latin(s):
        x |= set('"~^&$|:;`@*\\')     # marks of the ASCII schemes; some only before certain letters
    x |= set(DIGITS)      # read as digits by many scripts: C21
    return x


def passing(rec, a):
    s, t, nat, nf, np, salt = a
    rng = core.rng('C06', a)
    bad = special(s, t)
    own = [c for c in foreign.PUN + foreign.ASC if c not in bad and not (t == 'Thai' and c in '&-1>Qo}\xb6')]
    chars = rng.sample(foreign.FOR, nf) + rng.sample(own, min(np, len(own)))
    seen = {}
    for ch, k, x, g, e in foreign.observe(rec, s, t, nat, salt, chars, 1):
        if t == 'Thai' and k >= 4 or t == 'Hebrew' and k in (3, 4):
            continue        # word-initial clusters, final letters: a foreign letter joins the word
        if g != e:
            rec.violation('text of neither script changed', src=s, tgt=t, nativize=bool(nat), char='U+%04X' % ord(ch), text=x, got=g, expected=e)
        else:
            rec.ok((s, t, nat, x))
            rec.count['passed through'] += 1
            seen = {'from': s, 'to': t, 'text': x, 'result': g}
    if seen:
        rec.sample(seen)


def clean(rec, a):
    """Well-formed text leaves only characters of the target script."""
    s, t, nat, n, salt = a
    inv = rules.inventories()[t] if s == 'Devanagari' else rules.pair_inv(s, t)
    if not inv.usable():
        return
    rng = core.rng('C06a', a)
    ws = inv.words(rng, n)
    xs = ws if s == 'Devanagari' else call.lines(rec, 'Devanagari', s, ws)
    if not xs:
        return
    A = set(ALPHA[t])
    for x, y in zip(xs, call.lines(rec, s, t, xs, nativize=bool(nat)) or []):
        odd = set(y) - A
        if odd:
            rec.violation('a character outside the target script', src=s, tgt=t, nativize=bool(nat), text=x, got=y,
                          chars=' '.join('U+%04X' % ord(c) for c in sorted(odd)))
        else:
            rec.ok(('a', s, t, nat, x))
            rec.count['within the target alphabet'] += 1


def run(ctx):
    boot.get()
    ctx.rule = ('distinct (source, target, nativize, text): a foreign character or mark in one of six positions around '
                'converted words, compared with the words converted alone; or a word whose result is checked against the target alphabet')
    ss = rules.covered()
    items = []
    for s in ss:
        for nat in (0, 1):
            items.append(('Devanagari', s, nat, ctx.n(4, 23), ctx.n(16, 90), 0))
            items.append((s, 'Devanagari', nat, ctx.n(4, 23), ctx.n(16, 90), 0))
    rng = core.rng('C06 plan')
    for k in range(ctx.n(1000, 14000)):
        s, t = rng.sample(ss, 2)
        if t == 'Hebrew' and s in ('Urdu', 'Shahmukhi', 'Thaana'):
            continue        # the finding recorded for C05
        items.append((s, t, rng.randint(0, 1), 4, 10, k))
    rng.shuffle(items)
    ctx.map(__name__, 'passing', items)
    ps = rules.pairs('path') + [('Devanagari', t) for t in ss]
    rng.shuffle(ps)
    ctx.map(__name__, 'clean', [(s, t, 0 if s in ('Urdu', 'Shahmukhi', 'Hebrew', 'Thaana') else rng.randint(0, 1), 40, 0) for s, t in ps[:ctx.n(2000, len(ps))]])
    ctx.minimum = 60000
