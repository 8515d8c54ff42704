"""C07: conversion always answers: any text, any pair, any option."""
import signal
import time
from vlib import boot, call, core, hostile, known, rules

SC = core.spec('scripts.json')
ALL = sorted(set(SC['indic']) | set(SC['latin']) | set(SC['semitic']) | set(SC['kana']) | set(SC['semitic_iso']) | {'RomanLoC'})
OPT = core.spec('options.json')
DOC = ('romanNumerals', 'indicNumerals', 'indicDandas', 'romanFullStop', 'RemoveDiacritics')
CPU = 40.0


def allowed(s, t):
    return s != 'PersianDMG'          # recorded finding: as a source it always raises


def answer(rec, s, t, x, **kw):
    t0 = time.process_time()
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU)
    try:
        r = call.tr(rec, s, t, x, **kw)
    except core.Hang:
        rec.violation('hang', src=s, tgt=t, text=x[:100], length=len(x), kw=repr(kw), cpu_s='over %d' % CPU)
        return None
    dt = time.process_time() - t0
    signal.setitimer(signal.ITIMER_VIRTUAL, 600)
    rec.count['max ms of one call'] = max(rec.count['max ms of one call'], int(dt * 1000))
    if r is not None:
        rec.ok((s, t, x if len(x) < 300 else core.h64(x), sorted(kw.items())))
        rec.count['calls answered'] += 1
    return r


def pairs(rec, a):
    chunk, n, nf = a
    for s, t in chunk:
        rng = core.rng('C07', s, t)
        xs = rng.sample(hostile.FIXED, nf) + [hostile.text(rng, s, t) for _ in range(n)]
        for x in xs:
            r = answer(rec, s, t, x, nativize=bool(rng.getrandbits(1)))
        if r is not None:
            rec.sample({'from': s, 'to': t, 'text': ascii(x[:80]), 'answer': ascii(r[:80])})


def options(rec, a):
    kind, o, n = a
    rng = core.rng('C07o', kind, o)
    named = [s for s in ALL if s.lower() in o.lower()]
    for k in range(n):
        s, t = rng.choice(ALL), rng.choice(ALL)
        if kind == 'post':
            t = rng.choice(named) if named and k % 3 else t
            s = rng.choice(('Devanagari', 'IAST', s))
        else:
            s = rng.choice(named) if named and k % 3 else s
            t = rng.choice(('Devanagari', 'IAST', t))
        if not allowed(s, t):
            continue
        x = rng.choice(hostile.FIXED) if k == n - 1 else hostile.text(rng, s, t)
        answer(rec, s, t, x, nativize=bool(rng.getrandbits(1)), **{kind + '_options': [o]})
        rec.count[kind + '-processing option calls'] += 1


def combos(rec, a):
    rng = core.rng('C07c', a)
    for _ in range(20):
        s, t = rng.choice(ALL), rng.choice(ALL)
        if not allowed(s, t):
            continue
        po = rng.sample(OPT['post'], rng.randint(0, 4)) + rng.sample(DOC, rng.randint(0, 2))
        pr = rng.sample(OPT['pre'], rng.randint(0, 3))
        answer(rec, s, t, hostile.text(rng, s, t), nativize=bool(rng.getrandbits(1)), post_options=po, pre_options=pr)
        rec.count['option combinations'] += 1


def documented(rec, s):
    """The numeral and punctuation options, with every script on both sides."""
    rng = core.rng('C07d', s)
    for o in DOC:
        for a, b in [('Devanagari', s), (s, 'Devanagari'), (s, 'Hebr'), ('Hebr', s), (s, rng.choice(ALL)), (rng.choice(ALL), s)]:
            if allowed(a, b):
                answer(rec, a, b, 'ka क। 12 १२. || |', nativize=bool(rng.getrandbits(1)), post_options=[o])
                answer(rec, a, b, hostile.text(rng, a, b), nativize=bool(rng.getrandbits(1)), post_options=[o])


def long(rec, a):
    """Long runs: one character or one syllable many times over."""
    s, t, n = a
    rng = core.rng('C07l', s, t)
    own = [c for c in hostile.OWN.get(s, '') if c.strip()] or list('abckhr')
    for k in range(4):
        unit = rng.choice((rng.choice(own), ''.join(rng.choice(own) for _ in range(rng.randint(2, 6))), rng.choice(hostile.SPECIAL), rng.choice(hostile.PHRASES)))
        x = (unit * (n // len(unit) + 1))[:n]
        if rng.random() < .3:
            x += rng.choice(own)
        answer(rec, s, t, x, nativize=bool(k & 1))
        rec.count['long runs'] += 1


NUMBERS = ['0', '007', '20', '12345', '999999999'] + [d * n for n in (17, 40, 320, 400, 5000) for d in '19']


def numbers(rec, s):
    """Numbers of any size, in the digits of the source or in European ones."""
    for a, b in ((s, 'Devanagari'), ('Devanagari', s), ('HK', s)):
        if not allowed(a, b):
            continue
        own = [call.tr(rec, 'Devanagari', a, chr(0x966 + d)) for d in range(10)] if a == s and allowed('Devanagari', a) else []
        for x in NUMBERS:
            answer(rec, a, b, x, nativize=bool(len(x) & 1))
            if len(own) == 10 and all(c and len(c) == 1 for c in own) and len(x) < 1000:
                answer(rec, a, b, ''.join(own[int(c)] for c in x))
            rec.count['numbers'] += 1


def names(rec, a):
    """Whatever an auto-detected source turns out to be, there is an answer."""
    rng = core.rng('C07n', a)
    T = boot.get()
    for k in range(40):
        t = rng.choice(ALL)
        s = rng.choice(ALL)
        x = hostile.text(rng, s, t) if k else rng.choice(hostile.FIXED)
        try:
            d = T.auto_detect(x)
            T.auto_detect(x, plugin=True)
            T.detect_preoptions(x, d)
        except Exception as e:
            rec.violation('auto_detect raised', text=x, error='%s: %s' % (type(e).__name__, e))
            continue
        if d == 'PersianDMG':
            continue
        answer(rec, 'autodetect', t, x, nativize=bool(k & 1))
        rec.count['auto-detected'] += 1


def run(ctx):
    boot.get()
    ctx.rule = 'distinct (source, target, text, options) answered with a string within %d s of CPU time, without an exception' % CPU
    rng = core.rng('C07 plan')
    ps = [(s, t) for s in ALL for t in ALL if allowed(s, t)]
    rng.shuffle(ps)
    if ctx.quick:
        ps = ps[:9000]
    k = 60
    ctx.map(__name__, 'pairs', [(ps[i:i + k], ctx.n(2, 10), ctx.n(3, 16)) for i in range(0, len(ps), k)])
    ctx.map(__name__, 'options', [(kind, o, ctx.n(8, 120)) for kind in ('post', 'pre') for o in OPT[kind]])
    ctx.map(__name__, 'documented', ALL)
    ctx.map(__name__, 'combos', range(ctx.n(60, 2000)))
    ctx.map(__name__, 'numbers', ALL)
    ctx.map(__name__, 'names', range(ctx.n(40, 600)))
    ls = [(s, 'Devanagari') for s in ALL if allowed(s, '')] + [('Devanagari', t) for t in ALL]
    rng.shuffle(ls)
    ctx.map(__name__, 'long', [(s, t, ctx.n(400, 4000)) for s, t in ls[:ctx.n(180, len(ls))]])
    ctx.minimum = 20000
