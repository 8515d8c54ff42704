"""C21: numbers, dandas, Vedic accents and Om."""
from vlib import boot, call, core, lang, rules, signs, trig

HUB = signs.HUB


def off(table, key, law):
    return law in signs.spec()[table].get(key, ())


def report(rec, law, s, t, x, got, want, nat):
    if isinstance(got, str):
        got, want = signs.unspaced(t, got), signs.unspaced(t, want)
    if got != want:
        rec.violation(law, src=s, tgt=t, nativize=nat, text=x, got=got, expected=want)
    else:
        rec.ok((law, s, t, nat, x))
        rec.count[law] += 1


def hub(rec, a):
    """What the signs are in script t, from Devanagari, and back."""
    t, n, salt = a
    inv = rules.inventories()[t]
    rng = core.rng('C21', t, salt)
    for nat in (False, True):
        d = signs.spec()['scripts'][t]['nat' if nat else 'plain']
        nl = ', nativized' if nat else ''
        for kind in ('number', 'verse', 'om'):
            law = kind + nl
            xs = signs.texts(rng, inv, kind, n)
            ws = list(dict.fromkeys(p for _, x in xs for p in x if not p.isspace() and p[0] not in '\u0964\u0965\u0950' and p[0] not in lang.DIG))
            conv = dict(zip(ws, call.lines(rec, HUB, t, ws, nativize=nat) or []))
            got = call.lines(rec, HUB, t, [x for x, _ in xs], nativize=nat)
            if got is None or len(conv) != len(ws):
                continue
            if not off('hub_not', t, law):
                for (x, parts), g in zip(xs, got):
                    report(rec, law, HUB, t, x, g, signs.expected(t, nat, kind, parts, conv), nat)
            law = kind + ', read back'
            if not nat and not off('hub_not', t, law):
                for (x, _), g, b in zip(xs, got, call.lines(rec, t, HUB, got) or []):
                    report(rec, law, t, HUB, g, b, x, nat)
        for kind, marks in (('accent', d['accents']), ('gomukha', d['gomukha'])):
            law = kind + nl
            xs = signs.texts(rng, inv, kind, n)
            got = call.lines(rec, HUB, t, [x for x, _ in xs], nativize=nat)
            bare = call.lines(rec, HUB, t, [w for _, w in xs], nativize=nat)
            if got is None or bare is None:
                continue
            if not off('hub_not', t, law):
                src = signs.ACC if kind == 'accent' else signs.GUM
                for (x, w), g, b in zip(xs, got, bare):
                    report(rec, law, HUB, t, x, signs.strip(g, marks), b, nat)
                    if all(marks):
                        seq = [m for m in x if m in src]
                        report(rec, law + ', number of marks', HUB, t, x, signs.times(g, marks), sum(1 for m in seq), nat)
            law = kind + ', read back'
            if not nat and not off('hub_not', t, law):
                for (x, _), g, b in zip(xs, got, call.lines(rec, t, HUB, got) or []):
                    report(rec, law, t, HUB, g, b, x, nat)


def pair(rec, a):
    """The same from script s as from Devanagari."""
    s, t, n, salt = a
    inv = rules.pair_inv(s, t) if s != HUB else rules.inventories()[t]
    if not inv.usable() or s == HUB or (s, t) in rules.bad_pairs('path'):
        return
    rng = core.rng('C21p', s, t, salt)
    for kind in signs.KINDS:
        if off('hub_not', s, kind + ', read back'):
            continue
        xs = [x for x, _ in signs.texts(rng, inv, kind, n)]
        sp = call.lines(rec, HUB, s, xs)
        if sp is None:
            continue
        for nat in (False, True):
            law = kind + (', nativized' if nat else '') + ', from any script'
            if not signs.same(kind, s, t):
                continue
            want = call.lines(rec, HUB, t, xs, nativize=nat)
            got = call.lines(rec, s, t, sp, nativize=nat)
            if want is None or got is None:
                continue
            for x, g, w in zip(sp, got, want):
                report(rec, law, s, t, x, g, w, nat)


def run(ctx):
    boot.get()
    ctx.rule = 'distinct (law, source, target, nativize, text): a converted text compared with what its parts, or another script, give'
    ctx.map(__name__, 'hub', [(t, ctx.n(60, 400), k) for t in rules.covered() for k in range(ctx.n(1, 4))])
    rng = core.rng('C21 plan')
    ps = [p for p in rules.pairs('path')]
    rng.shuffle(ps)
    ctx.map(__name__, 'pair', [(s, t, ctx.n(3, 20), 0) for s, t in ps])
    trig.run(ctx, lambda s, t, kw, x: any(trig.sign(c) for c in x))
    ctx.extra['pairs'] = len(ps)
    ctx.minimum = ctx.n(100000, 1000000)
