"""C13: how options are given and combined."""
import gzip
import json
import os
from vlib import boot, call, cases, core, effects, rules

KINDS = ('post', 'pre')
# names that are no options
NONE = ['', ' ', 'nosuchoption', 'RemoveDiacritics ', ' removediacritics', 'Remove Diacritics', 'RemoveDiacritic', '__init__', '__doc__', 're', 'json', 'GM', 'GeneralMap', 'PostProcesses', 'PreProcesses',
        'PostOptions', 'Convert', 'string', '1', 'None', 'True', 'default ', 'x' * 500, 'अआ', 'Tamil', 'IAST', 'Devanagari', 'removeDiacritics,default', 'os', 'exit', 'romanNumeral', 'indicDanda', '\n', 'ſ', 'İ', 'K']


def lower(kind):
    return {x.lower() for x in cases.OPT[kind]}


# functions that are not meant as options, reachable by name (see DESIGN.md)
def helpers():
    return {x.lower() for k in ('post_helpers', 'pre_helpers') for x in cases.OPT[k]}


def mixed(rng, o):
    """The same name in another case."""
    k = rng.randrange(4)
    return o.lower() if k == 0 else o.upper() if k == 1 else o.swapcase() if k == 2 else ''.join(rng.choice((c.lower(), c.upper())) for c in o)


def junk(rng, kind):
    r = rng.random()
    if r < .35:
        other = 'pre' if kind == 'post' else 'post'
        o = rng.choice(cases.OPT[other])
        return o if o.lower() not in lower(kind) | helpers() else 'nosuchoption'
    if r < .7:
        return rng.choice(NONE)
    o = rng.choice(cases.OPT[kind])
    i = rng.randrange(len(o))
    o = rng.choice((o[:i] + o[i + 1:], o[:i] + 'z' + o[i:], o + 's', o + '\u200b', 'x' + o, o[:-1]))
    return o if o.lower() not in lower(kind) | helpers() else 'nosuchoption'


def kw(kind, l):
    return {kind + '_options': l}


def sample(rng, kind, s, t, ent, n):
    from . import c14
    lines = c14.lines_of(kind, s, t)
    hit = [int(i) for i in ent] if isinstance(ent, dict) else []
    hit = [i for i in hit if i < len(lines)]
    pick = rng.sample(hit, min(n, len(hit))) + rng.sample(range(len(lines)), 4)
    rng.shuffle(pick)
    return '\n'.join(lines[i] for i in pick)


def naming(rec, a):
    """Any case, unknown names among them, lists and tuples: the same result."""
    salt, ents = a
    T = boot.get()
    rng = core.rng('C13n', salt)
    for kind, o, s, t, e in ents:
        x = sample(rng, kind, s, t, e, 10)
        nat = rng.random() < .3
        def run(**k):
            return call.tr(rec, s, t, x, nativize=nat, **k)
        want = run(**kw(kind, [o]))
        if want is None:
            continue
        variants = [[mixed(rng, o)], [mixed(rng, o)], (o,), (mixed(rng, o), junk(rng, kind))]
        for _ in range(3):
            l = [mixed(rng, o) if rng.random() < .5 else o]
            for _ in range(rng.randint(1, 4)):
                l.insert(rng.randrange(len(l) + 1), junk(rng, kind))
            variants.append(l)
        for l in variants:
            k = kw(kind, l)
            if rng.random() < .3:
                k.update(kw('pre' if kind == 'post' else 'post', [junk(rng, 'pre' if kind == 'post' else 'post') for _ in range(rng.randint(0, 2))]))
            got = run(**k)
            if got is None:
                continue
            if got != want:
                rec.violation('naming of options', src=s, tgt=t, text=x[:200], options=[o], given=repr(k)[:300], got=got[:200], expected=want[:200])
            else:
                rec.ok((kind, o, s, t, repr(l)))
                rec.count['lists of options that mean the same'] += 1


def unknown(rec, a):
    """Nothing but unknown names: as without options (with one that does nothing)."""
    rng = core.rng('C13u', a)
    T = boot.get()
    for _ in range(60):
        s, t, x, k = cases.case(rng)
        if s in ('autodetect', 'PersianDMG') or 'param' in k:
            continue
        nat = k['nativize']
        base = {'post_options': ['default'], 'pre_options': ['default']} if s == t else {}
        want = call.tr(rec, s, t, x, nativize=nat, **base)
        po = [junk(rng, 'post') for _ in range(rng.randint(0, 4))] + base.get('post_options', [])
        pr = [junk(rng, 'pre') for _ in range(rng.randint(0, 3))] + base.get('pre_options', [])
        got = call.tr(rec, s, t, x, nativize=nat, post_options=po, pre_options=pr)
        if got is not None and want is not None:
            if got != want:
                rec.violation('unknown options', src=s, tgt=t, text=x[:200], post=po, pre=pr, nativize=nat, got=got[:200], expected=want[:200])
            else:
                rec.ok((s, t, x, repr(po), repr(pr)))
                rec.count['lists of unknown options'] += 1


def raw(rec, f, *a, **k):
    try:
        return f(*a, **k)
    except core.Hang:
        raise
    except boot.NetworkAttempt:
        return None
    except Exception as e:
        rec.violation('raised', call=repr(a)[:300], kw=repr(k)[:200], error='%s: %s' % (type(e).__name__, e))


def defaults(rec, a):
    """Left out arguments have the documented values; all arguments may be
    given by position."""
    rng = core.rng('C13d', a)
    T = boot.get()
    for _ in range(40):
        s, t, x, k = cases.case(rng)
        if s in ('autodetect', 'PersianDMG') or 'param' in k:
            continue
        po, pr, n = k.get('post_options', []), k.get('pre_options', []), k['nativize']
        def same(what, *l):
            r = [f() for f in l]
            if any(y != r[0] for y in r):
                rec.violation(what, src=s, tgt=t, text=x[:200], nativize=n, post=po, pre=pr, got=[repr(y)[:150] for y in r])
            else:
                rec.ok((what, s, t, x, n, repr(po), repr(pr)))
                rec.count[what] += 1
        P = T.process
        same('omitted arguments', lambda: raw(rec, P, s, t, x), lambda: raw(rec, P, s, t, x, True), lambda: raw(rec, P, s, t, x, nativize=True, post_options=[], pre_options=[], param='default'),
             lambda: raw(rec, P, s, t, x, post_options=()))
        same('arguments by position', lambda: raw(rec, P, s, t, x, nativize=n, post_options=list(po), pre_options=list(pr)), lambda: raw(rec, P, s, t, x, n, list(po), list(pr)),
             lambda: raw(rec, P, s, t, x, n, list(po), list(pr), 'default'), lambda: raw(rec, P, src=s, tgt=t, txt=x, nativize=n, pre_options=tuple(pr), post_options=tuple(po)),
             lambda: raw(rec, P, s, t, x, n, post_options=list(po), pre_options=list(pr), param='default'))


def foreign(rec, a):
    """Options of other scripts change nothing."""
    kind, s, t, opts = a
    from . import c14
    lines = c14.lines_of(kind, s, t)
    base = effects.run(s, t, lines, kind, None)
    T = boot.get()
    k = kw(kind, list(opts))
    try:
        got = T.process(s, t, '\n'.join(lines), nativize=False, **k)
    except core.Hang:
        raise
    except Exception as e:
        got = ('raised', '%s: %s' % (type(e).__name__, e))
    if got == base:
        rec.ok((kind, s, t, tuple(opts)), len(opts))
        rec.count['options of other scripts given'] += len(opts)
        return
    for o in opts:                      # which one
        got = effects.run(s, t, lines, kind, o)
        if got != base:
            break
    i = next((i for i, (p, q) in enumerate(zip(got.split('\n'), base.split('\n'))) if p != q), 0) if isinstance(got, str) and isinstance(base, str) else 0
    rec.violation('an option of another script', option=o, kind_=kind, src=s, tgt=t, text=lines[i], got=got.split('\n')[i][:200] if isinstance(got, str) else got, expected=base.split('\n')[i][:200])


def combos():
    with gzip.open(os.path.join(core.HERE, 'spec', 'combos.json.gz')) as f:
        return json.loads(f.read().decode('utf-8', 'surrogatepass'))


def combined(rec, l):
    """Several options are applied in the order given (reference results)."""
    from . import c14
    rng = core.rng('C13c')
    for kind, s, t, nat, pre, post, ix, want in l:
        lines = c14.lines_of(kind, s, t)
        x = '\n'.join(lines[i] for i in ix)
        got = call.tr(rec, s, t, x, nativize=nat, pre_options=[mixed(rng, o) for o in pre], post_options=[mixed(rng, o) for o in post])
        if got is None:
            continue
        if got != '\n'.join(want):
            i, (g, w) = next(((i, (g, w)) for i, (g, w) in enumerate(zip(got.split('\n'), want)) if g != w), (0, (got, '')))
            rec.violation('options combined', src=s, tgt=t, nativize=nat, pre=pre, post=post, text=lines[ix[i]], got=g, expected=w)
        else:
            rec.ok((s, t, nat, tuple(pre), tuple(post)), len(ix))
            rec.count['combinations of options'] += 1


def source(rec, a):
    """A post-processing option does not depend on the source script."""
    s, t, opts, n = a
    rng = core.rng('C13s', s, t)
    inv = rules.pair_inv(s, t)
    if not inv.usable():
        return
    ws = inv.words(rng, n)
    if not ws:
        return
    x = call.lines(rec, 'Devanagari', s, ws)
    b1, b2 = x and call.lines(rec, s, t, x), call.lines(rec, 'Devanagari', t, ws)
    if b1 is None or b2 is None:
        return
    for o in opts:
        if (s, o) in SRC_PAIR:
            continue
        y1, y2 = call.lines(rec, s, t, x, post_options=[o]), call.lines(rec, 'Devanagari', t, ws, post_options=[o])
        if y1 is None or y2 is None:
            return
        for w, p, q, u, v in zip(ws, b1, b2, y1, y2):
            if p != q:
                continue
            if u != v:
                rec.violation('an option depends on the source', src=s, tgt=t, option=o, text=w, got=u, from_devanagari=v)
            else:
                rec.ok((s, t, o, w))
                rec.count['words with an option, from two sources'] += 1


def untouched(kind, s, t):
    touched = effects.table()['touched'][kind]
    own = t if kind == 'post' else s
    ix = 1 if kind == 'post' else 0
    low = {x.lower() for x in cases.OPT[kind]}
    bad = {o.lower() for o, l in touched.items() if any(p[ix] == own for p in l)}
    return [o for o in cases.OPT[kind] if o.lower() not in bad and o not in effects.SKIP]


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


# options that also look at what some source alone writes (joiners, ra and ba)
SRC_NOT = ('SoyomboFinals', 'BengaliRaBa')
SRC_PAIR = (('Javanese', 'JavaneseSimplified'), ('BengaliRaBa', 'egrantamil'))


def run(ctx):
    boot.get()
    ctx.rule = 'lists of options (in other cases, with unknown names, with options of other scripts) judged against the execution they must equal'
    rng = core.rng('C13')
    ents = list(effects.table()['entries'])
    rng.shuffle(ents)
    ctx.map(__name__, 'naming', [((i, k), c) for k in range(ctx.n(1, 8)) for i, c in enumerate(chunks(ents, 12))])
    ctx.map(__name__, 'combined', chunks(combos(), 60))
    ctx.map(__name__, 'unknown', range(ctx.n(24, 400)))
    ctx.map(__name__, 'defaults', range(ctx.n(24, 400)))
    jobs = []
    for s in cases.ALL:
        for kind in KINDS:
            if s == 'RomanLoC' and kind == 'pre':
                continue
            p = ('Devanagari', s) if kind == 'post' else (s, 'Devanagari' if s != 'Devanagari' else 'IAST')
            if kind == 'post' and s in cases.SC['semitic'] and s != 'Latn' and not ctx.quick:
                jobs += [(kind, 'Latn', s, [c]) for c in untouched(kind, 'Latn', s)]
            free = untouched(kind, *p)
            core.random.Random('foreign').shuffle(free)
            jobs += [(kind, p[0], p[1], c) for c in chunks(free, 10 if ctx.quick and kind == 'post' else 1)]
    rng.shuffle(jobs)
    ctx.map(__name__, 'foreign', jobs)
    own = {}
    for kind, o, s, t, e in ents:
        if kind == 'post' and s == 'Devanagari' and o not in SRC_NOT:
            own.setdefault(t, []).append(o)
    pairs = [p for p in rules.pairs('path') if p[1] in own and p[0] not in ('Hebrew', 'Shahmukhi', 'Urdu')]
    pairs = rng.sample(pairs, ctx.n(1200, len(pairs)))
    ctx.map(__name__, 'source', [(s, t, rng.sample(own[t], min(len(own[t]), ctx.n(4, 40))), ctx.n(12, 40)) for s, t in pairs])
    ctx.minimum = 8000
