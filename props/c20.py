"""C20: nativization follows the conventions of the target script."""
from vlib import boot, call, cases, core, effects, grid, lang, nativ, rules, trig

# the conventions of a script, named one by one
LISTS = {
    'Sinhala': ['SinhalaChandrbinduAnusvara'], 'Khojki': ['KhojkiRRI'], 'Hebrew': ['HebrewVetVav', 'HebrewnonFinalShort'],
    'MeeteiMayek': ['MeeteiMayekremoveHistorical'], 'Limbu': ['LimburemoveHistorical'], 'Gurmukhi': ['GurmukhiCandrabindu', 'GurmukhiTippiBindu', 'GurmukhiTippiGemination'],
    'Saurashtra': ['SaurashtraHaru'], 'Ahom': ['AhomClosed'], 'Tibetan': ['TibetanRemoveVirama', 'TibetanRemoveBa'], 'Thaana': ['ThaanaRemoveHistorical'],
    'Avestan': ['AvestanConventions'], 'Sundanese': ['SundaneseRemoveHistoric'], 'Multani': ['MultaniAbjad'], 'Modi': ['ModiRemoveLong'], 'WarangCiti': ['WarangCitiModernOrthogaphy'],
}


def reference(rec, ents):
    for what, s, t, e in ents:
        if what == 'many':
            l = nativ.many()
        else:
            tb = effects.table()
            l = tb['dev'] if what == 'dev' else tb['sem'] if what == 'sem' else tb['src'][s][:450]
        y = call.lines(rec, s, t, l, nativize=True)
        if y is None:
            continue
        if what == 'many':
            n = nativ.BLOCK
            for k, h in enumerate(e):
                if nativ.digest(y[k * n:k * n + n]) != h:
                    rec.violation('nativized text (one of these words)', src=s, tgt=t, words=l[k * n:k * n + n], got=y[k * n:k * n + n])
                else:
                    rec.ok((what, t, k), n)
            rec.count['words against the reference'] += len(l)
            continue
        if what == 'own':
            want = e
        else:
            b = call.lines(rec, s, t, l, nativize=False)
            if b is None:
                continue
            want = [e.get(str(i), x) for i, x in enumerate(b)]
            rec.count['words nativization changes'] += len(e)
        for x, g, w in zip(l, y, want):
            if g != w:
                rec.violation('nativized text', src=s, tgt=t, text=x, got=g, expected=w)
        rec.ok((what, s, t), len(want))
        rec.count['words against the reference'] += len(want)


def source(rec, a):
    """Nativization depends on the target only."""
    s, t, n = a
    rng = core.rng('C20s', s, t)
    inv = rules.pair_inv(s, t)
    if not inv.usable():
        return
    ws = inv.words(rng, n)
    x = ws and call.lines(rec, 'Devanagari', s, ws)
    y = x and call.lines(rec, s, t, x, nativize=True)
    z = y and call.lines(rec, 'Devanagari', t, ws, nativize=True)
    if not z:
        return
    for w, u, v in zip(ws, y, z):
        if u != v:
            rec.violation('nativization depends on the source', src=s, tgt=t, text=w, got=u, from_devanagari=v)
        else:
            rec.ok((s, t, w))
            rec.count['words nativized from two sources'] += 1


def plain(rec, a):
    """Scripts without conventions: nativization changes nothing in words they
    can write."""
    t, n = a
    rng = core.rng('C20p', t)
    inv = rules.inventories()[t]
    ws = inv.words(rng, n)
    y, z = call.lines(rec, 'Devanagari', t, ws, nativize=True), call.lines(rec, 'Devanagari', t, ws, nativize=False)
    if y is None or z is None:
        return
    for w, u, v in zip(ws, y, z):
        if u != v:
            rec.violation('nativization changes a word', tgt=t, text=w, got=u, plain=v)
        else:
            rec.ok((t, w))
            rec.count['words left alone by nativization'] += 1


def named(rec, a):
    """Nativizing is applying the conventions of the script, then leaving out
    the signs that keep foreign letters apart."""
    t, n = a
    rng = core.rng('C20n', t)
    full = lang.Inv(lang.C33 + lang.CX + lang.NUK, range(0, 13), True, lang.AY)
    ws = full.words(rng, n)
    y = call.lines(rec, 'Devanagari', t, ws, nativize=True)
    z = call.lines(rec, 'Devanagari', t, ws, post_options=LISTS[t] + ['RemoveDiacritics'])
    if y is None or z is None:
        return
    for w, u, v in zip(ws, y, z):
        if u != v:
            rec.violation('nativization is not its conventions', tgt=t, text=w, got=u, by_options=v)
        else:
            rec.ok((t, 'n', w))
            rec.count['words nativized by naming the conventions'] += 1


def pairs_of(rec, a):
    """Running text of every source in every target, nativized (spec/grid.json.gz)."""
    s, ts, want = a
    row = grid.table()['rows'][s]
    for t in ts:
        bs = grid.blocks(s, t, want)
        y = [call.tr(rec, s, t, '\n'.join(grid.block(s, b)), nativize=True) for b in bs]
        for b, v in zip(bs, y):
            if v is None:
                continue
            if grid.digest([v]) == row[t]['1'][b * 8:b * 8 + 8]:
                rec.ok(('grid', s, t, b))
                rec.count['blocks of running text'] += 1
            else:
                rec.violation('nativized text (some line of it)', src=s, tgt=t, nativize=True, text='\n'.join(grid.block(s, b)), got=v, expected='text of digest ' + row[t]['1'][b * 8:b * 8 + 8])


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def run(ctx):
    boot.get()
    ctx.rule = 'blocks of nativized words equal to the reference, and words nativized in two ways that must agree'
    rng = core.rng('C20')
    ents = list(nativ.table())
    changed = {t for w, s, t, e in ents if w == 'dev' and e}
    many = [[e] for e in ents if e[0] == 'many']
    rest = [e for e in ents if e[0] != 'many']
    rng.shuffle(rest)
    ctx.map(__name__, 'reference', many + chunks(rest, 6))
    pairs = [p for p in rules.pairs('path') if p[0] not in ('Hebrew', 'Shahmukhi', 'Urdu')]
    hot = [p for p in pairs if p[1] in changed]
    ctx.map(__name__, 'source', [(s, t, ctx.n(12, 60)) for s, t in (rng.sample(hot, min(len(hot), 1500)) + rng.sample(pairs, 1500) if ctx.quick else pairs)])
    ctx.map(__name__, 'plain', [(t, ctx.n(150, 2500)) for t in rules.inventories() if t not in changed and t in cases.ALL])
    ctx.map(__name__, 'named', [(t, ctx.n(500, 8000)) for t in LISTS])
    want = [1, 8] if ctx.quick else list(range(grid.BLOCKS))
    ctx.map(__name__, 'pairs_of', [(s, ts[i:i + 24], want) for s in sorted(grid.table()['rows']) for ts in [grid.targets(s)] for i in range(0, len(ts), 24)])
    trig.run(ctx, lambda s, t, kw, x: kw.get('nativize', True) and trig.plain(kw))
    ctx.minimum = 20000
