"""C14: every option has its effect, and no other."""
import re
import unicodedata
from vlib import boot, call, core, effects, lang, rules, trig


def expected(base, e):
    if isinstance(e, str):
        return e.split('\n')
    b = base.split('\n')
    return [e.get(str(i), x) for i, x in enumerate(b)]


def lines_of(kind, s, t):
    d = effects.table()
    return d['src'][s] if kind == 'pre' else d['dev'] if s == 'Devanagari' else d['sem']


def effect(rec, group):
    """All options of one pair of scripts over the whole fixed corpus."""
    kind, s, t, ents = group
    lines = lines_of(kind, s, t)
    base = effects.run(s, t, lines, kind, None)
    if not isinstance(base, str):
        rec.violation('raised', src=s, tgt=t, error=base[1])
        return
    for o, e in ents:
        r = effects.run(s, t, lines, kind, o)
        if not isinstance(r, str):
            rec.violation('raised', src=s, tgt=t, option=o, error=r[1])
            continue
        got, want = r.split('\n'), expected(base, e)
        if len(got) != len(want):
            rec.violation('number of lines', src=s, tgt=t, option=o, got=len(got), expected=len(want))
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            if g != w:
                rec.violation('effect of an option', kind_=kind, option=o, src=s, tgt=t, text=lines[i] if i < len(lines) else '', got=g, expected=w)
        rec.ok((kind, o, s, t), len(want))
        rec.count['lines changed by an option'] += len(e) if isinstance(e, dict) else len(want)
        rec.count['lines an option must leave alone'] += len(want) - (len(e) if isinstance(e, dict) else len(want))
    rec.sample({'option': o, 'source': s, 'target': t, 'line': ascii(lines[i])[:80], 'result': ascii(got[i])[:80]})


def apart(rec, a):
    """In other surroundings (other neighbours, several to a line, alone) a
    text is treated the same."""
    kind, s, t, o, seps, n = a
    rng = core.rng('C14a', kind, s, t, o)
    lines = lines_of(kind, s, t)
    ent = [e for k, p, x, y, e in effects.table()['entries'] if (k, p, x, y) == (kind, o, s, t)][0]
    base = effects.run(s, t, lines, kind, None)
    if not isinstance(base, str):
        return
    want = expected(base, ent)
    if len(want) != len(lines):
        return
    plain = [i for i, x in enumerate(lines) if unicodedata.category(x[:1] or ' ')[0] in 'LN' and not unicodedata.combining(x[-1])]
    if kind == 'pre':               # the lines that were written by the library
        plain = [i for i in plain if i < 450]
    hit = [i for i in plain if isinstance(ent, dict) and str(i) in ent]
    pick = rng.sample(hit, min(len(hit), n)) + rng.sample(plain, min(len(plain), n))
    rng.shuffle(pick)
    for sep in seps:
        step = 9 if sep == '\n' else 3
        for k in range(0, len(pick), step):
            p = pick[k:k + step]
            r = effects.run(s, t, [sep.join(lines[i] for i in p)], kind, o)
            if r != sep.join(want[i] for i in p):
                rec.violation('effect of an option in other surroundings', option=o, src=s, tgt=t, text=sep.join(lines[i] for i in p), got=r, expected=sep.join(want[i] for i in p))
                rec.data.append(sep)
            else:
                rec.ok()
                rec.count['texts in other surroundings'] += 1


def inverse(rec, a):
    t, o, p, n = a
    rng = core.rng('C14i', t, o, p)
    ws = rules.inventories()[t].words(rng, n)
    if not ws:
        return
    x = call.lines(rec, 'Devanagari', t, ws, post_options=[o])
    plain = call.lines(rec, 'Devanagari', t, ws)
    if x is None or plain is None:
        return
    y = call.lines(rec, t, 'Devanagari', x, pre_options=[p] if p else ['default'])
    if y is None:
        return
    for w, a1, b in zip(ws, x, y):
        if w != b:
            rec.violation('not read back', script=t, post=o, pre=p, text=w, written=a1, read=b)
        else:
            rec.ok((t, o, p, w))
            rec.count['words written with an option and read back'] += 1
    rec.count['of these, changed by the option'] += sum(q != r for q, r in zip(x, plain))


# Pali in the orthographies of Thai and Lao, read with the orthography named
READ = [('Thai', 'ThaiTranscription', 'ThaiOrthography', 'ṃ|ll[eo]'), ('Thai', 'ThaiTranscription', 'ThaiPhonetic', 'ṃ|ll[eo]'),
        ('Thai', 'ThaiSajjhayaOrthography', 'ThaiSajjhayaOrthography', '$^'), ('Thai', 'ThaiSajjhayawithA', 'ThaiSajjhayawithA', 'ṃ'),
        ('LaoPali', 'LaoSajjhaya', 'LaoSajhayaOrthography', '$^'), ('LaoPali', 'LaoSajjhayawithA', 'LaoSajhayaOrthographywithA', 'ṃ'),
        ('LaoPali', 'LaoTranscription', 'LaoTranscription', 'ṃ'), ('LaoPali', 'LaoPhonetic', 'LaoPhonetic', 'ṃ|ṅā')]


def orthography(rec, a):
    from . import c12
    rng = core.rng('C14p', a)
    for s, o, p, no in READ:
        ws = [' '.join(c12.pali(rng) for _ in range(rng.randint(1, 3))) for _ in range(20)]
        ws = [w for w in ws if not re.search(no, w)]
        x = call.lines(rec, 'IAST', s, ws, post_options=[o])
        y = x and call.lines(rec, s, 'IAST', x, pre_options=[p])
        if y is None:
            return
        for w, q, b in zip(ws, x, y):
            if w != b:
                rec.violation('orthography not read back', script=s, post=o, pre=p, text=w, written=q, read=b)
            else:
                rec.ok((o, p, w))
                rec.count['Pali texts written and read back in an orthography'] += 1


def groups():
    by = {}
    for k, o, s, t, e in effects.table()['entries']:
        by.setdefault((k, s, t), []).append((o, e))
    out = []
    for (k, s, t), l in by.items():
        for i in range(0, len(l), 8):
            out.append((k, s, t, l[i:i + 8]))
    return out


def run(ctx):
    boot.get()
    ctx.rule = 'combinations of option and pair of scripts judged over the whole corpus, and words written with an option and read back'
    g = groups()
    core.rng('C14').shuffle(g)
    ctx.map(__name__, 'effect', g)
    ctx.map(__name__, 'inverse', [(t, o, p, ctx.n(250, 4000)) for t, o, p in core.spec('inverse.json')])
    ctx.map(__name__, 'apart', [(k, s, t, o, list(seps), ctx.n(10, 120)) for k, o, s, t, seps in core.spec('apart.json')])
    ctx.map(__name__, 'orthography', range(ctx.n(24, 400)))
    trig.run(ctx, lambda s, t, kw, x: not trig.plain(kw))
    ctx.minimum = 5000
