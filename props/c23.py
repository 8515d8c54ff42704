"""C23: kana are read and written as they sound."""
from vlib import boot, call, cases, core, kana, lang, rules, trig

# word-making moras: the small tsu doubles what it can, the moraic nasal stands before a consonant
DOUBLE = 'kspbgdt'
NAT = (False, True)
LATIN = set(cases.SC['latin']) - {'ISO'}


def word(rng):
    ms = [m for m in kana.MORA]
    w = ''
    for _ in range(rng.randint(1, 5)):
        m = rng.choice(ms)
        x = kana.MORA[m]
        if rng.random() < .12 and x[0] in DOUBLE and not x.startswith('ts') and m not in 'ぢづ':
            w += 'っ'
        w += m
        if rng.random() < .08:
            w += 'ー'
        elif rng.random() < .15:
            w += 'ん'
    return w


def good(w):
    """The words the reading model speaks about."""
    r = kana.read(w)
    if 'いゐ' in w or 'ゐ' in w or 'ゑ' in w:
        return False
    for i, c in enumerate(w):
        if c == 'ん' and w[i + 1:i + 2] and kana.MORA.get(w[i + 1], 'a')[0] in 'aiueoyn':
            return False
    return '-' not in kana.join(r)      # a long mark after an already long vowel


def words(rng, n):
    out = []
    while len(out) < n:
        w = word(rng)
        if good(w) and w not in out:
            out.append(w)
    return out


# these write text from ISO 15919 with marks of its own
OWN_ISO = ('TamilGrantha', 'TamilExtended', 'Sharada', 'Sinhala', 'WarangCiti', 'SylotiNagri', 'Rejang')


def reading(rec, a):
    """Kana to a target: the conversion of the ISO 15919 reading, whichever kana."""
    t, nat, n, salt = a
    rng = core.rng('C23 reading', t, nat, salt)
    hs = words(rng, n)
    if t in LATIN:                    # each scheme has its own hiatus
        hs = [w for w in hs if ':' not in kana.join(kana.read(w))] or ['か']
    iso = [kana.join(kana.read(w)) for w in hs]
    want = [x.replace('\u02bd', ':') for x in iso] if t == 'ISO' else call.singles(rec, 'ISO', t, [' ' + x for x in iso], nativize=nat)
    if want is None:
        return
    for w, r, e in zip(hs, iso, want):
        for s, x in (('Hiragana', w), ('Katakana', kana.shift(w))):
            if t == 'ISO':
                e = ' ' + r
            got = call.tr(rec, s, t, x, nativize=nat)
            if got is None:
                return
            if got != e:
                rec.violation('kana read otherwise than they sound', src=s, tgt=t, nativize=nat, text=x, reading=r, got=got, expected=e)
                return
            rec.ok((s, t, nat, x))
            rec.count['words read'] += 1
    rec.sample({'to': t, 'kana': hs[0], 'reading': iso[0], 'result': want[0]})


FOREIGN = ('😀', 'слово', 'ქართ', '한글')


def lines(rec, a):
    """Lines and words in other scripts: each on its own."""
    s, t, nat, n, salt = a
    rng = core.rng('C23 lines', s, t, nat, salt)
    hs = words(rng, n)
    if s == 'Katakana':
        hs = [kana.shift(w) for w in hs]
    ys = call.singles(rec, s, t, hs, nativize=nat)
    if ys is None:
        return
    for _ in range(n):
        idx = [rng.randrange(n) for _ in range(rng.randint(2, 6))]
        sep = [rng.choice(('\n', '\n', '\n\n')) for _ in idx[1:]] + ['']
        x = ''.join(hs[i] + p for i, p in zip(idx, sep))
        e = ''.join(ys[i] + p for i, p in zip(idx, sep))
        got = call.tr(rec, s, t, x, nativize=nat)
        if got is None:
            return
        if got != e:
            rec.violation('lines of kana are not read one by one', src=s, tgt=t, nativize=nat, text=x, got=got, expected=e)
            return
        rec.ok((s, t, nat, x))
        rec.count['lines'] += len(idx)
    for w, y in zip(hs, ys):
        f = rng.choice(FOREIGN)
        x = w + '\n' + f + '\n' + w
        got = call.tr(rec, s, t, x, nativize=nat)
        if got is None:
            return
        p = got.split('\n')
        if len(p) != 3 or p[0] != y or p[2] != y or p[1].strip() != f:
            rec.violation('text in another script is not kept among kana', src=s, tgt=t, nativize=nat, text=x, got=got, expected=y + '\n' + f + '\n' + y)
            return
        rec.ok((s, t, nat, x))
        rec.count['foreign words kept'] += 1


def writing(rec, a):
    """To kana: the same from every script, Katakana as Hiragana, word by word."""
    s, nat, n, salt = a
    inv = rules.pair_inv(s, 'Telugu') if s != 'Devanagari' else rules.inventories()['Telugu']
    if not inv.usable():
        return
    rng = core.rng('C23 writing', s, nat, salt)
    hub = inv.words(rng, n)
    xs = hub if s == 'Devanagari' else call.singles(rec, 'Devanagari', s, hub)
    if xs is None:
        return
    ref = call.singles(rec, 'Devanagari', 'Hiragana', hub, nativize=nat)
    ka = call.singles(rec, s, 'Katakana', xs, nativize=nat)
    hi = call.singles(rec, s, 'Hiragana', xs, nativize=nat)
    if ref is None or ka is None or hi is None:
        return
    for w, x, r, h, k in zip(hub, xs, ref, hi, ka):
        if h != r:
            rec.violation('kana depend on the script they are written from', src=s, tgt='Hiragana', nativize=nat, text=x, word=w, got=h, expected=r)
            return
        if '\u094d'.join('वव') in w or 'ッティ' in k:     # left to the table
            continue
        if unlong(k) != kana.shift(h):
            rec.violation('katakana are not the hiragana', src=s, tgt='Katakana', nativize=nat, text=x, got=k, expected=kana.shift(h))
            return
        rec.ok((s, nat, x))
        rec.count['words written'] += 1
    for tgt, ys in (('Hiragana', hi), ('Katakana', ka)):
        for _ in range(max(1, n // 4)):
            idx = [rng.randrange(len(xs)) for _ in range(rng.randint(2, 6))]
            got = call.tr(rec, s, tgt, '\n'.join(xs[i] for i in idx), nativize=nat)
            if got is None:
                return
            e = '\n'.join(ys[i] for i in idx)
            if got != e:
                rec.violation('lines are not written in kana one by one', src=s, tgt=tgt, nativize=nat, text='\n'.join(xs[i] for i in idx), got=got, expected=e)
                return
            rec.ok((s, tgt, nat, '\n'.join(xs[i] for i in idx)))
    rec.sample({'from': s, 'text': xs[0], 'hiragana': hi[0], 'katakana': ka[0]})


LAST = {}
for _v, _r in zip('アイウエオ', ('アカガサザタダナハバパマヤラワァャヮ', 'イキギシジチヂニヒビピミリヰィ', 'ウクグスズツヅヌフブプムユルゥュヴ', 'エケゲセゼテデネヘベペメレヱェ', 'オコゴソゾトドノホボポモヨロヲォョ')):
    for _c in _r:
        LAST[_c] = _v


def unlong(k):
    out = ''
    last = ''
    for c in k:
        if c == 'ー' and last:
            out += last
            continue
        out += c
        if c != '\u309A':
            last = LAST.get(c, '')
    return out


def aksharas():
    inv = rules.inventories()['Telugu']
    out = lang.aksharas(inv)
    cs = [a for a in out if len(a) == 1 and 'क' <= a <= 'ह']
    out = list(out) + [a + '्' + b for a in cs for b in cs] + [a + '्' + b + v for a in cs for b in 'यरव' for v in 'ािीुूेैोौ'] + [a + x for a in cs for x in 'ंः']
    return list(dict.fromkeys(out))


def observe(rec):
    """What is written for every syllable, and how that is read again."""
    out = {}
    ws = aksharas()
    for t in ('Hiragana', 'Katakana'):
        for nat in NAT:
            ys = call.singles(rec, 'Devanagari', t, ws, nativize=nat)
            zs = call.singles(rec, t, 'Devanagari', ys)
            out[t + str(int(nat))] = [ws, ys, zs]
    return out


def table(rec, a):
    """Every syllable as recorded, a part of the table."""
    k, lo, hi = a
    if not _TABLE:
        _TABLE.update(core.spec('kana.json.gz'))
    ws, ys, zs = _TABLE[k]
    t, nat = k[:-1], k[-1] == '1'
    got = call.singles(rec, 'Devanagari', t, ws[lo:hi], nativize=nat)
    back = call.singles(rec, t, 'Devanagari', ys[lo:hi])
    if got is None or back is None:
        return
    for w, y, z, g, b in zip(ws[lo:hi], ys[lo:hi], zs[lo:hi], got, back):
        if g != y:
            rec.violation('a syllable is written with other kana', src='Devanagari', tgt=t, nativize=nat, text=w, got=g, expected=y)
        elif b != z:
            rec.violation('kana are read as another syllable', src=t, tgt='Devanagari', text=y, got=b, expected=z)
        else:
            rec.ok((k, w))
            rec.count['syllables written and read'] += 1


_TABLE = {}


def either(rec, a):
    {'reading': reading, 'lines': lines, 'writing': writing, 'table': table}[a[0]](rec, a[1:])


def run(ctx):
    boot.get()
    rng = core.rng('C23 plan')
    items = []
    for k, (ws, _, _) in core.spec('kana.json.gz').items():
        items += [('table', k, i, i + 150) for i in range(0, len(ws), 150)]
    ts = [t for t in cases.ALL if t not in ('Hiragana', 'Katakana', 'ISO', 'RomanLoC')]
    for k in range(ctx.n(1, 6)):
        for nat in NAT:
            items.append(('reading', 'ISO', nat, ctx.n(150, 400), k))
        for t in ts:
            if t in OWN_ISO:
                continue
            for nat in NAT if k else (rng.random() < .5,):
                items.append(('reading', t, nat, ctx.n(12, 30), k))
        for t in rng.sample([t for t in ts if not t.startswith('Hebr')], ctx.n(40, 120)):
            items.append(('lines', rng.choice(('Hiragana', 'Katakana')), t, rng.random() < .5, ctx.n(10, 20), k))
        for s in rules.covered():
            if s in ('Hebrew', 'Urdu', 'Shahmukhi'):
                continue
            items.append(('writing', s, rng.random() < .5, ctx.n(16, 40), k))
    rng.shuffle(items)
    ctx.rule = 'distinct kana word and target, word and source, or syllable of the table'
    ctx.map(__name__, 'either', items)
    trig.run(ctx, lambda s, t, kw, x: {s, t} & {'Hiragana', 'Katakana'})
    ctx.minimum = ctx.n(8000, 30000)
