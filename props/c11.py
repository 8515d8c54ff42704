"""C11: names and codes select the script they stand for."""
import warnings
from vlib import boot, call, cases, core, hostile, rules

TABLE = core.spec('codes.json')
SC = core.spec('scripts.json')
CI = sorted(set(SC['indic']) | set(SC['latin']))        # names matched without regard to case
PARTNER = {'script_code': ('Deva', 'Devanagari'), 'lang_code': ('hi', 'Devanagari'), 'lang_name': ('Hindi', 'Devanagari')}
PARTNER2 = {'script_code': ('Latn-HK', 'HK'), 'lang_code': ('la-HK', 'HK'), 'lang_name': ('Tamil', 'Tamil')}


def full(rng, s):
    """Text with every letter of the script, so that no two scripts agree on it."""
    a = hostile.OWN.get(s, '')
    a = ''.join(c for c in a if c.isprintable())
    parts = [a[i:i + 7] for i in range(0, len(a), 7)]
    rng.shuffle(parts)
    base = 'क ख ग घ ङ च छ ज झ ञ ट ठ ड ढ ण त थ द ध न प फ ब भ म य र ल व श ष स ह ळ ऴ ऱ ऩ कि की कु कू कृ के कै को कौ कं कः कँ अ आ इ ई उ ऊ ऋ ए ऐ ओ औ क्ष ट्ट १२३ ।'
    return ' '.join(parts), base


def kwargs(rng, s, t):
    kw = {'nativize': rng.random() < .5}
    if rng.random() < .5:
        kw['post_options'] = [rng.choice(cases.OPT['post'])] if rng.random() < .5 else [cases.named(rng, 'post', s, t)]
    if rng.random() < .4:
        kw['pre_options'] = [cases.named(rng, 'pre', s, t)]
    return kw


def casing(rng, tag):
    return rng.choice((tag, tag, tag.upper(), tag.lower(), tag.swapcase(), ''.join(rng.choice((c.lower(), c.upper())) for c in tag)))


def same(rec, param, src, tgt, rs, rt, x, kw):
    T = boot.get()
    def go(f):
        try:
            return ('ok', f())
        except core.Hang:
            raise
        except boot.NetworkAttempt:
            return ('net', '')
        except Exception as e:
            return ('raises', '%s: %s' % (type(e).__name__, str(e)[:100]))
    want = go(lambda: T.process(rs, rt, x, **kw))
    got = go(lambda: T.process(src, tgt, x, param=param, **kw))
    if want[0] == 'raises':
        rec.count['named conversion failed'] += 1        # C07 judges that
        return
    if got != want:
        rec.violation('a %s selects something else' % param, src=src, tgt=tgt, means=[rs, rt], text=x[:200], kw=repr(kw), got=got[1][:200], expected=want[1][:200])
    else:
        rec.ok((param, src, tgt, x, repr(sorted(kw.items()))))
        rec.count[param + ' conversions equal to the named script'] += 1
        rec.sample({'param': param, 'from': src, 'to': tgt, 'means': [rs, rt], 'kw': repr(kw)})


def codes(rec, a):
    param, tag, script, n = a
    rng = core.rng('C11', param, tag)
    own, base = full(rng, script)
    sem = script in SC['semitic'] and '-' not in tag and tag == script
    for k in range(n):
        tg = casing(rng, tag) if k and not sem and tag != 'Syrc' and param != 'lang_name' else tag
        pc, pn = rng.choice((PARTNER[param], PARTNER2[param]))
        # as a target, then as a source
        kw = kwargs(rng, pn, script) if k else {'nativize': False}
        same(rec, param, PARTNER[param][0], tg, PARTNER[param][1], script, base if k < 2 else cases.words(rng, 'Devanagari', 5), kw)
        kw = kwargs(rng, script, pn) if k else {'nativize': False}
        if script == 'Tamil' and pn == 'IPA':
            continue
        same(rec, param, tg, pc, script, pn, own if k < 2 else cases.words(rng, script, 5), kw)


def between(rec, a):
    """Codes on both sides."""
    rng = core.rng('C11b', a)
    for _ in range(25):
        param = rng.choice(('script_code', 'lang_code', 'lang_name'))
        x = TABLE[param]
        s, t = rng.choice(list(x)), rng.choice(list(x))
        if x[s] == 'Tamil' and x[t] == 'IPA':
            continue
        same(rec, param, s, t, x[s], x[t], cases.words(rng, x[s], 4), kwargs(rng, x[s], x[t]))


def names(rec, s):
    """Names of scripts in any case."""
    rng = core.rng('C11n', s)
    own, base = full(rng, s)
    T = boot.get()
    for k in range(6):
        kw = kwargs(rng, 'IAST', s)
        for src, tgt, x in (('IAST', s, 'kaccha ṭhīka śrī 12'), ('Devanagari', s, base), (s, 'Devanagari', own)):
            if any(o.lower() == 'removediacritics' for o in kw.get('post_options', [])):
                kw.pop('post_options')
            w = call.tr(rec, src, tgt, x, **kw)
            a, b = casing(rng, src), casing(rng, tgt)
            g = call.tr(rec, a, b, x, **kw)
            if w is not None and g != w:
                rec.violation('the case of a name matters', src=a, tgt=b, text=x[:200], kw=repr(kw), got=(g or '')[:200], expected=w[:200])
            else:
                rec.ok((a, b, repr(sorted(kw.items()))))
                rec.count['names in any case'] += 1
            # the lower level entry points, with options in their own order
            # (removediacritics names two functions, which process applies both)
            pre, post = ([o for o in kw.get(kd + '_options', []) if o in cases.OPT[kd] and o.lower() != 'removediacritics'] for kd in ('pre', 'post'))
            for nm, f in (('convert', lambda: T.convert(src, tgt, x, kw['nativize'], list(pre), list(post))),
                          ('convert_default', lambda: T.convert_default(src, tgt, x, kw['nativize'], list(post), list(pre))),
                          ('process, positional', lambda: T.process(src, tgt, x, kw['nativize'], list(post), list(pre)))):
                try:
                    g = f()
                except boot.NetworkAttempt:
                    continue
                except Exception as e:
                    rec.violation(nm + ' raised', src=src, tgt=tgt, text=x[:200], kw=repr(kw), error=repr(e)[:200])
                    continue
                if w is not None and g != w:
                    rec.violation(nm + ' differs from process', src=src, tgt=tgt, text=x[:200], kw=repr(kw), got=g[:200], expected=w[:200])
                else:
                    rec.ok((nm, src, tgt, k))
                    rec.count['entry points compared'] += 1


MAIN = 'Devanagari Tamil Telugu Kannada Malayalam Gujarati Bengali Oriya Gurmukhi Sinhala IAST ISO HK'.split()
BAD = ['Foo', 'Devanagar', 'Devanagarii', 'xx', 'Deva', 'ta', 'Tamill', '??', 'Latin', 'Sanskrit', 'IASTT', ' Tamil', 'hebrew2']


def unknown(rec, a):
    rng = core.rng('C11u', a)
    T = boot.get()
    for _ in range(30):
        bad = rng.choice(BAD)
        s = rng.choice(cases.ALL)
        x = cases.words(rng, s, 3)
        if rng.random() < .5:
            s, x = rng.choice(MAIN), 'kamala sita 25'
        src, tgt = (bad, s) if rng.random() < .5 else (s, bad)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            try:
                r = T.process(src, tgt, x, nativize=False)
            except boot.NetworkAttempt:
                continue
            except Exception as e:
                rec.violation('an unknown name raises', src=src, tgt=tgt, text=x, error=repr(e)[:200])
                continue
        if not any('not found in the list' in str(v.message) and bad in str(v.message) for v in w):
            rec.violation('no warning about an unknown name', src=src, tgt=tgt, text=x)
        elif src == bad and r != x and x[:6] == 'kamala':
            rec.violation('text of an unknown script was changed', src=src, tgt=tgt, text=x, got=r)
        else:
            rec.ok((src, tgt, x))
            rec.count['unknown names'] += 1
        param = rng.choice(('script_code', 'lang_code'))
        tag = rng.choice(('Zyyx', 'qq', 'xx-Deva', 'hi-Taml', 'ta-Zyyx', 'Devv', 'deva2', 'zz'))
        p = PARTNER[param][0]
        src, tgt = (tag, p) if rng.random() < .5 else (p, tag)
        try:
            r = T.process(src, tgt, 'क', param=param)
            rec.violation('an unknown code is accepted', src=src, tgt=tgt, param=param, got=r)
        except Exception as e:
            if tag and tag not in str(e):
                rec.violation('the error does not name the unknown code', src=src, tgt=tgt, param=param, error=repr(e)[:200])
            else:
                rec.ok((param, src, tgt))
                rec.count['unknown codes refused'] += 1


def run(ctx):
    boot.get()
    ctx.rule = 'distinct (parameter, source, target, text, options) whose result equals that of the scripts the names or codes stand for'
    items = [(p, tag, s, ctx.n(3, 24)) for p in TABLE for tag, s in TABLE[p].items()]
    rng = core.rng('C11 plan')
    rng.shuffle(items)
    ctx.map(__name__, 'codes', items)
    ctx.map(__name__, 'between', range(ctx.n(40, 800)))
    ctx.map(__name__, 'names', CI)
    ctx.map(__name__, 'unknown', range(ctx.n(10, 200)))
    ctx.minimum = 5000
