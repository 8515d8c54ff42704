"""C17: equivalent spellings of a word are read alike."""
import unicodedata
from vlib import boot, call, cases, core, lang, rules, trig

SPEC = core.spec('equiv.json')
HUB = 'Devanagari'


def sources():
    return sorted(SPEC)


def pool(rec, S, rng, n):
    inv = rules.inventories().get(S) or rules.inventories()['Telugu']
    ws = inv.words(rng, n, 5)
    return ws if S == HUB else call.lines(rec, HUB, S, ws)


def targets(rng, S, n):
    al = [t for t in cases.ALL if t != S and t not in ('RomanLoC', 'Hiragana', 'Katakana') and (S, t) != ('Tamil', 'IPA')]
    return [t for t in rng.sample(al, n)]


def judge(rec, kind, S, t, xs, ys, what, **kw):
    """ys[i] is another spelling of xs[i]."""
    a = call.lines(rec, S, t, xs, **kw)
    b = a and call.lines(rec, S, t, ys, **kw)
    if not b:
        return
    for x, y, p, q, w in zip(xs, ys, a, b, what):
        if p != q:
            rec.violation(kind, src=S, tgt=t, text=y, spelled=w, got=q, usual_spelling=x, usual=p, **{k: repr(v) for k, v in kw.items()})
        else:
            rec.ok((kind, S, t, y))
    rec.count[kind] += len(xs)


def put(rng, w, p, c):
    """c in place of some of the p in w, at least one."""
    parts = w.split(p)
    n = len(parts) - 1
    some = {rng.randrange(n)} | {i for i in range(n) if rng.random() < .6}
    o = parts[0]
    for i, x in enumerate(parts[1:]):
        o += (c if i in some else p) + x
    return o


def same(rec, a):
    """Entries of the table, in random words, for random targets."""
    S, salt, nt, per = a
    rng = core.rng('C17', S, salt)
    ent = SPEC[S]['same']
    ws = pool(rec, S, rng, 700)
    if not ws or not ent:
        return
    where = {p: [w for w in ws if p in w] for p in set(ent.values())}
    skip = SPEC[S].get('not', {})
    for t in targets(rng, S, nt) + [HUB] * (S != HUB and salt == 0):
        xs, ys, wh = [], [], []
        for c, p in ent.items():
            l = where[p]
            if not l or t in skip.get(c, ()):
                continue
            for w in rng.sample(l, min(per, len(l))):
                xs.append(w)
                ys.append(put(rng, w, p, c))
                wh.append((c, p))
        if xs:
            judge(rec, 'alternate spelling', S, t, xs, ys, wh, nativize=rng.random() < .4)
    rec.sample({'script': S, 'usual': xs[-1] if xs else '', 'other': ys[-1] if ys else ''})


def joiner(rec, a):
    """ZWJ and ZWNJ after letters that do not form conjuncts."""
    S, salt, nt = a
    rng = core.rng('C17z', S, salt)
    zw = SPEC[S]['joiner']
    ws = pool(rec, S, rng, 250)
    if not ws or not zw:
        return
    for t in targets(rng, S, nt) + [HUB] * (S != HUB and salt == 0):
        xs, ys, wh = [], [], []
        for w in ws:
            ps = [p for p in zw if p in w]
            if not ps or t in SPEC[S].get('joiner_not', ()):
                continue
            p = rng.choice(ps)
            xs.append(w)
            ys.append(put(rng, w, p, p + rng.choice('\u200c\u200d')))
            wh.append((p, 'joiner'))
        if xs:
            judge(rec, 'joiner', S, t, xs, ys, wh)


def capitals(rec, a):
    """Schemes that do not tell capitals apart."""
    S, salt, nt = a
    rng = core.rng('C17c', S, salt)
    ws = pool(rec, S, rng, 250)
    if not ws:
        return
    for t in targets(rng, S, nt):
        f = rng.choice(SPEC[S]['case'])
        judge(rec, 'capitals', S, t, ws, [getattr(w, f)() for w in ws], [(f,)] * len(ws), nativize=rng.random() < .4)
        ys = [''.join(c.upper() if rng.random() < .4 else c for c in w) for w in ws] if SPEC[S].get('mixed') else []
        if ys:
            judge(rec, 'capitals', S, t, ws, ys, [('mixed',)] * len(ws))


def composed(rec, a):
    """Schemes and scripts for which a whole text may be decomposed."""
    S, f, salt, nt = a
    rng = core.rng('C17n', S, f, salt)
    ws = pool(rec, S, rng, 250)
    if not ws:
        return
    zs = [unicodedata.normalize(f, w) for w in ws]
    xs = [w for w, z in zip(ws, zs) if w != z]
    ys = [z for w, z in zip(ws, zs) if w != z]
    if not xs:
        return
    for t in targets(rng, S, nt):
        judge(rec, 'whole text ' + f, S, t, xs, ys, [(f,)] * len(xs), nativize=rng.random() < .4)


def run(ctx):
    boot.get()
    ctx.rule = 'pairs of spellings of one word that must be converted alike'
    q = ctx.quick
    S = sources()
    ctx.map(__name__, 'same', [(s, k, 3, 5 if q else 10) for s in S if SPEC[s]['same'] for k in range(ctx.n(2, 40))])
    ctx.map(__name__, 'joiner', [(s, k, 3) for s in S if SPEC[s]['joiner'] for k in range(ctx.n(1, 15))])
    ctx.map(__name__, 'capitals', [(s, k, 5) for s in S if SPEC[s]['case'] for k in range(ctx.n(4, 80))])
    ctx.map(__name__, 'composed', [(s, f, k, 4) for s in S for f in SPEC[s].get('normal', ()) for k in range(ctx.n(2, 30))])
    trig.run(ctx, lambda s, t, kw, x: True, 'n')
    ctx.minimum = 10000
