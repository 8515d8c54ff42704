"""Jobs shared by the round-trip and path-independence checks."""
from . import boot, call, core, lang, rules

HUB = 'Devanagari'


def workload(rng, inv, n_words, systematic=True):
    ws = []
    if systematic:
        ws += lang.aksharas(inv) + lang.conjuncts(inv)
    ws += inv.words(rng, n_words)
    ws += inv.words(rng, n_words // 8, 9)
    return list(dict.fromkeys(ws))


def texts(rng, ws, n):
    """Running text out of words of the workload."""
    out = []
    for _ in range(n):
        k = rng.randint(2, 9)
        out.append(''.join(rng.choice(ws) + rng.choice((' ', ' ', ' ', '  ', '\n', ' \n'))
                           for _ in range(k)).rstrip())
    return out


def compare(rec, law, s, t, ins, mids, outs, want, **kw):
    bad = 0
    for w, m, o, e in zip(ins, mids, outs, want):
        if o != e:
            bad += 1
            rec.violation(law, src=s, tgt=t, text=w, via=m, got=o, expected=e, **kw)
        else:
            rec.ok((law, s, t, w))
    rec.count[law] += len(ins) - bad
    return bad


def roundtrip(rec, s, t, xs, conv, label):
    ys = conv(rec, s, t, xs)
    if ys is None:
        return
    zs = conv(rec, t, s, ys)
    if zs is None:
        return
    compare(rec, label, s, t, xs, ys, zs, xs)
    if xs:
        rec.sample({'law': label, 'from': s, 'to': t, 'text': xs[-1], 'converted': ys[-1], 'back': zs[-1]})


def hub_roundtrip(rec, a):
    """Devanagari -> S -> Devanagari: every akshara, every two-consonant
    cluster, random words, running text; batched and one call at a time."""
    S, n, nt, ns, salt = a
    inv = rules.inventories()[S]
    rng = core.rng('hub', S, salt)
    ws = workload(rng, inv, n, systematic=salt == 0)
    roundtrip(rec, HUB, S, ws, call.lines, 'round trip')
    roundtrip(rec, HUB, S, texts(rng, ws, nt), call.singles, 'round trip of running text')
    roundtrip(rec, HUB, S, rng.sample(ws, min(ns, len(ws))), call.singles, 'round trip, single call')


def pair_roundtrip(rec, a):
    s, t, n, salt = a
    inv = rules.pair_inv(s, t)
    if not inv.usable():
        rec.count['pair with nothing in common'] += 1
        return
    rng = core.rng('pair', s, t, salt)
    ws = inv.words(rng, n)
    xs = call.lines(rec, HUB, s, ws)
    if not xs:
        return
    roundtrip(rec, s, t, xs, call.lines, 'round trip of a pair')


def path(rec, a):
    s, t, n, ns, salt = a
    inv = rules.pair_inv(s, t)
    if not inv.usable():
        rec.count['pair with nothing in common'] += 1
        return
    rng = core.rng('path', s, t, salt)
    ws = inv.words(rng, n)
    for conv, part, label in ((call.lines, ws, 'same result by either path'),
                              (call.singles, ws[:ns], 'same result by either path, single call')):
        if not part:
            continue
        x = conv(rec, HUB, s, part)
        y = conv(rec, HUB, t, part)
        if x is None or y is None:
            return
        z = conv(rec, s, t, x)
        if z is None:
            return
        compare(rec, label, s, t, part, x, z, y)
        rec.sample({'law': label, 'word': part[-1], 'from': s, 'spelled': x[-1], 'to': t, 'result': z[-1]})
