"""C04: every letter, digit and sign corresponds to its counterpart."""
from vlib import boot, call, core, letters, rules, trig

LET = core.spec('letters.json')
REV = core.spec('reverse.json')


def _cmp(rec, law, s, t, ws, got, want):
    if got is None:
        return
    for w, g, e in zip(ws, got, want):
        if g != e:
            rec.violation(law, src=s, tgt=t, text=w, got=g, expected=e)
        else:
            rec.ok((law, s, t, w))
            rec.count[law] += 1


def forward(rec, S):
    inv = rules.inventories()[S]
    ref = LET[S]
    L = ref['letters']
    ws = list(L)
    _cmp(rec, 'letter', 'Devanagari', S, ws, call.lines(rec, 'Devanagari', S, ws), L.values())
    rng = core.rng('C04', S)
    some = rng.sample(ws, min(25, len(ws)))
    _cmp(rec, 'letter, single call', 'Devanagari', S, some, call.singles(rec, 'Devanagari', S, some), [L[w] for w in some])
    cs = letters.combos(inv)
    want = [ref['exc'].get(w) or letters.predict(L, inv, k, x, y) for w, k, x, y in cs]
    cs = [c[0] for c in cs]
    _cmp(rec, 'combination of two letters', 'Devanagari', S, cs, call.lines(rec, 'Devanagari', S, cs), want)
    rec.sample({'script': S, 'letters': dict(list(L.items())[:3]), 'combination': [cs[-1] if cs else '', want[-1] if cs else '']})


def reverse(rec, S):
    ref = REV[S]
    ws = list(ref)
    if S != 'Devanagari':
        _cmp(rec, 'reading in Devanagari', S, 'Devanagari', ws, call.lines(rec, S, 'Devanagari', ws), [v[0] for v in ref.values()])
    _cmp(rec, 'reading in IAST', S, 'IAST', ws, call.lines(rec, S, 'IAST', ws), [v[1] for v in ref.values()])
    some = core.rng('C04r', S).sample(ws, min(15, len(ws)))
    _cmp(rec, 'reading, single call', S, 'IAST', some, call.singles(rec, S, 'IAST', some), [ref[w][1] for w in some])


def pair(rec, a):
    s, t = a
    inv = rules.pair_inv(s, t)
    if not inv.usable():
        return
    A, B = LET[s]['letters'], LET[t]['letters']
    k = inv.cons[0]
    ws = [w for w in letters.items(inv) if w in A and w in B and inv.allows(w) and w not in letters.SIGNS and w not in letters.EXTRA]
    _cmp(rec, 'letter between two scripts', s, t, [A[w] for w in ws],
         call.lines(rec, s, t, [A[w] for w in ws]), [B[w] for w in ws])


def run(ctx):
    boot.get()
    ctx.rule = ('distinct (law, source, target, letter or combination): one conversion of a letter, sign, digit or '
                'two-letter combination compared with the correspondence table')
    me = __name__
    ctx.map(me, 'forward', rules.covered())
    ctx.map(me, 'reverse', [s for s in REV if REV[s]])
    ps = rules.pairs('path')
    core.rng('C04 plan').shuffle(ps)
    ps = ps[:ctx.n(6000, len(ps))]
    ctx.map(me, 'pair', ps)
    trig.run(ctx, lambda s, t, kw, x: trig.raw(kw) and s in trig.INDIC | trig.LATIN and t in trig.INDIC | trig.LATIN)
    ctx.extra['pairs'] = len(ps)
    ctx.extra['scripts'] = len(LET)
    ctx.minimum = 300000
