"""C15: text set apart stays as it is, and explicit marks are honoured."""
import re
from vlib import boot, call, cases, core, hostile, lang, rules, sem, trig

SC = core.spec('scripts.json')
HUB = 'Devanagari'
MARK = '\u2638'
KEPT = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ\u1e25\u1e6d\u1e63\u02be\u02bf\u0161\u0101\u012b\u016b\u0113\u014d\u1e24\u1e6c\u1e62\u0160\u0100\u012a\u016a\u0112\u014c')
NOT_KEPT = ('Latn', 'Type', 'RomanSemitic')
JOIN = {'{}': '\u200c', '()': '\u200d'}


def ours(rng, t):
    k = rng.random()
    if k < .5:
        x = cases.words(rng, 'Itrans', rng.randint(1, 4))
    elif k < .9:
        x = hostile.text(rng, 'Itrans', t)
    else:
        x = rng.choice(('', ' ', '\n', 'a', 'OM', '|', '.', 'ka', '1 2'))
    return x.replace('#', '')


def theirs(rng, t):
    k = rng.random()
    if k < .3:
        x = ' '.join(''.join(rng.choice(KEPT) for _ in range(rng.randint(1, 8))) for _ in range(rng.randint(1, 4)))
    elif k < .5:
        x = cases.words(rng, rng.choice(('Itrans', HUB, t)), rng.randint(1, 3))
    else:
        x = hostile.text(rng, rng.choice(('Itrans', t, HUB)), t)
    return x.replace('#', '')


def apart(rec, a):
    """A##B##C gives what A and C give, and B between them."""
    t, salt, n = a
    rng = core.rng('C15', t, salt)
    memo = {}
    for i in range(n):
        kw = {'nativize': rng.random() < .5}
        if rng.random() < .3:
            kw['post_options'] = [cases.named(rng, 'post', 'Itrans', t) for _ in range(rng.randint(1, 2))]
        if rng.random() < .2:
            kw['pre_options'] = [cases.named(rng, 'pre', 'Itrans', t)]
        m = rng.choice((1, 2, 2, 2, 3, 4, 5, 6))
        parts = [ours(rng, t) if j % 2 == 0 else theirs(rng, t) for j in range(m + 1)]
        x = '##'.join(parts)
        own = [call.tr(rec, 'Itrans', t, p, **kw) for p in parts[::2]]
        r = call.tr(rec, 'Itrans', t, x, **kw)
        if r is None or None in own:
            continue
        w = ''.join(own[j // 2] if j % 2 == 0 else p for j, p in enumerate(parts))
        if r != w:
            rec.violation('set apart by ##', src='Itrans', tgt=t, text=x, got=r, expected=w, **{k: repr(v) for k, v in kw.items()})
        else:
            rec.ok(('##', t, x))
        rec.count['texts with ##'] += 1
    rec.sample({'target': t, 'text': x[:200], 'got': (r or '')[:200]})


def kept(rec, a):
    """Latin words in the text of a Semitic script, or on the way to one."""
    s, t, n = a
    rng = core.rng('C15k', s, t)
    if s in SC['semitic']:
        try:
            ws = call.lines(rec, 'Latn', s, sem.of(s).words(rng, 3 * n))
        except KeyError:
            return
    else:
        inv = rules.inventories().get(s)
        if inv is None:
            return
        ws = inv.words(rng, 3 * n, 4)
        ws = ws if s == HUB else call.lines(rec, HUB, s, ws)
    if not ws:
        return
    xs, ys, ls = [], [], []
    for i in range(n):
        l = ''.join(rng.choice(KEPT) for _ in range(rng.randint(1, 9)))
        p = [ws[3 * i], MARK, ws[3 * i + 1], ws[3 * i + 2]]
        rng.shuffle(p)
        if '\u2028' in ''.join(p):
            continue
        y = ' '.join(p)
        xs.append(y.replace(MARK, l))
        ys.append(y)
        ls.append(l)
    for nat in (False, True):
        a_ = call.lines(rec, s, t, xs, nativize=nat)
        b = a_ and call.lines(rec, s, t, ys, nativize=nat)
        if not b:
            continue
        for x, l, p, q in zip(xs, ls, a_, b):
            if MARK not in q:
                continue
            if p != q.replace(MARK, l):
                rec.violation('Latin word in other text', src=s, tgt=t, nativize=nat, text=x, got=p, expected=q.replace(MARK, l))
            else:
                rec.ok(('latin', s, t, x, nat))
        rec.count['texts with Latin words'] += len(xs)


def marks(rec, a):
    """a_i and a_u are two vowels, {} and () stand for the joiners."""
    s, t, n = a
    inv = rules.pair_inv(s, t)
    if not inv.usable():
        return
    rng = core.rng('C15m', s, t)
    pool = inv.words(rng, 60, 4)
    ini = [v + w for w in pool if w[0] in CONS for v in VOW]
    opn = [w for w in pool if w[-1] in CONS]
    vir = [w + '\u094d' for w in pool if w[-1] in CONS]
    con = [w for w in pool if w[0] in CONS]
    for sep in '_', '{}', '()':
        L, M = (opn, ini) if sep == '_' else (vir, con)
        if not L or not M or s in BAD[sep] or t in BAD[sep]:
            continue
        l = [rng.choice(L) for _ in range(n)]
        m = [rng.choice(M) for _ in range(n)]
        ref = [a_ + JOIN.get(sep, '') + b for a_, b in zip(l, m)]
        p, q = call.lines(rec, HUB, s, l), call.lines(rec, HUB, s, m)
        if sep == '_':
            want = call.lines(rec, HUB, t, ref)
        else:
            u, v = call.lines(rec, HUB, t, l), call.lines(rec, HUB, t, m)
            want = u and v and [a_ + JOIN[sep] + b for a_, b in zip(u, v)]
        if not p or not q or not want:
            continue
        xs = [a_ + sep + b for a_, b in zip(p, q)]
        got = call.lines(rec, s, t, xs)
        if not got:
            continue
        for x, r, w, d in zip(xs, got, want, ref):
            if r != w:
                rec.violation('mark ' + sep, src=s, tgt=t, text=x, got=r, expected=w, as_devanagari=d)
            else:
                rec.ok(('mark', s, t, x))
        rec.count['texts with ' + sep] += len(xs)


VOW = '\u0907\u0909'
CONS = {chr(c) for c in range(0x915, 0x93a)}


MARKS = re.compile('##|\\{\\}|\\(\\)|_')
LETTERS = re.compile('[A-Za-z]')


def run(ctx):
    boot.get()
    ctx.rule = 'texts with parts set apart, foreign words, or marks'
    q = ctx.quick
    ts = [t for t in cases.ALL if t not in ('Hiragana', 'Katakana', 'Itrans')]
    ctx.map(__name__, 'apart', [(t, k, 12 if q else 40) for t in ts for k in range(ctx.n(1, 8))])
    S = [s for s in SC['semitic'] if s not in NOT_KEPT]
    K = [(s, t) for s in S for t in ts if s != t] + [(s, t) for s in rules.inventories() if not rules.latin(s) and s not in NOT_KEPT for t in SC['semitic']]
    if q:
        K = core.rng('C15 pairs').sample(K, 1500)
    ctx.map(__name__, 'kept', [(s, t, 12) for s, t in K])
    P = [(s, t) for s, t in rules.pairs('path') if rules.latin(s) and not rules.latin(t) ]
    ctx.map(__name__, 'marks', [(s, t, 12 if q else 40) for s, t in P])
    trig.run(ctx, lambda s, t, kw, x: MARKS.search(x) or trig.semitic(s) and LETTERS.search(x))
    ctx.minimum = 5000


# No mark: Mro and Avestan give _ another reading, Sora Sompeng and Warang Citi have no stop to put before a joiner, Thai moves its vowels over the whole cluster, Sinhala has joiners of its own.
BAD = {'_': {'Mro', 'Avestan'}, '{}': {'SoraSompeng', 'WarangCiti', 'Thai'}, '()': {'SoraSompeng', 'WarangCiti', 'Thai', 'Sinhala'}}
