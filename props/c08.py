"""C08: a conversion depends on its arguments only, not on what ran before."""
import copy
import random
import sys
from vlib import boot, cases, core, fresh


def pristine(rec, chunk):
    for c in chunk:
        rec.data.append(fresh.forked(fresh.outcome, c))


class Injected(Exception):
    pass


def interrupt(case, k):
    """Run a call and make it fail at its k-th Python function call inside the package."""
    n = [0]

    def prof(frame, event, arg):
        if event == 'call' and 'aksharamukha' in frame.f_code.co_filename and frame.f_code.co_name != '<module>' and 'importlib' not in frame.f_code.co_filename:
            n[0] += 1
            if n[0] == k:
                f = frame.f_back
                while f:                # not while the package imports a table
                    if f.f_code.co_name == '<module>' and 'ScriptMap' in f.f_code.co_filename:
                        n[0] -= 1
                        return
                    f = f.f_back
                raise Injected()
    sys.setprofile(prof)
    try:
        fresh.outcome(case)
    except Injected:
        return True
    finally:
        sys.setprofile(None)
    return n[0] >= k


def history(rec, a):
    salt, chunk, faults = a
    rng = core.rng('C08h', salt)
    past = []
    for c, want in chunk:
        s, t, x, kw = c
        k = copy.deepcopy(kw)
        if faults and rng.random() < .5:
            f = cases.case(rng) if rng.random() < .5 else c
            if interrupt(f, rng.choice((1, 2, 3, 5, 8, 15, 30, 60, 120))):
                rec.count['calls made to fail half way'] += 1
                past.append(('interrupted', f))
        got = fresh.outcome((s, t, x, k))
        if k != kw:
            rec.violation('an argument was changed', src=s, tgt=t, text=x[:200], kw=repr(kw), after=repr(k))
        if got != tuple(want):
            rec.violation('the result depends on earlier calls', src=s, tgt=t, text=x[:200], kw=repr(kw), got=got[1][:200], fresh=want[1][:200], last_calls=repr(past[-6:])[:600])
        else:
            rec.ok((s, t, x, repr(sorted(kw.items()))))
            rec.count['results equal to a fresh process'] += 1
        past.append(c)
    rec.count['max calls before a compared call'] = max(rec.count['max calls before a compared call'], len(past))
    rec.sample({'sequence of': len(chunk), 'last call': ascii(chunk[-1][0])[:160], 'equals a fresh process': True})


def again(rec, a):
    """The same call, many times in a row and around others."""
    salt, chunk = a
    rng = core.rng('C08a', salt)
    for c, want in chunk:
        for _ in range(rng.choice((2, 3, 6))):
            got = fresh.outcome((c[0], c[1], c[2], copy.deepcopy(c[3])))
            if got != tuple(want):
                rec.violation('repeating a call changes its result', src=c[0], tgt=c[1], text=c[2][:200], kw=repr(c[3]), got=got[1][:200], fresh=want[1][:200])
                break
            rec.ok()
            rec.count['repeated calls'] += 1


def neighbours(rng, c):
    """Calls that share a script, an option or the text with c."""
    s, t, x, kw = c
    out = []
    if 'param' not in kw and s != 'autodetect':
        out.append((s, t, x, dict(kw, nativize=not kw['nativize'])))
        out.append((s, t, cases.words(rng, s, 2), {'nativize': True}))
        out.append((s, t, x, {'nativize': kw['nativize'], 'post_options': [cases.named(rng, 'post', s, t)]}))
        out.append((s, t, x, {'nativize': kw['nativize'], 'pre_options': [cases.named(rng, 'pre', s, t)]}))
        out.append((t, s, cases.words(rng, t, 2), {'nativize': kw['nativize']}))
    return [o for o in out if rng.random() < .6 and o[0] != 'PersianDMG']


def groups(rec, pairs):
    """Calls of one pair of scripts before and after many other calls of it."""
    for s, t in pairs:
        rng = core.rng('C08g', s, t)
        base = [(s, t, cases.words(rng, s, rng.randint(1, 4)), {'nativize': i % 2 == 1}) for i in range(3)]
        base += [(s, t, x, {'nativize': False, 'post_options': [cases.named(rng, 'post', s, t)]}) for x in (base[0][2], base[1][2])]
        want = [fresh.outcome(copy.deepcopy(c)) for c in base]
        past = []
        for i in range(7):
            k = rng.random()
            x = cases.words(rng, s, 2) if k < .5 else rng.choice(base)[2]
            kw = {'nativize': rng.random() < .5}
            if k < .9:
                kw['post_options'] = [cases.named(rng, 'post', s, t) if rng.random() < .6 else rng.choice(VISIBLE) for _ in range(rng.randint(1, 3))]
            if k < .4 or k > .8:
                kw['pre_options'] = [cases.named(rng, 'pre', s, t) for _ in range(rng.randint(1, 2))]
            c = (s, t, x, kw)
            if i == 5:
                c = (s, rng.choice(cases.ALL), x, kw)
            if i == 6:
                c = (rng.choice(cases.ALL), t, x, kw)
            if c[0] != 'PersianDMG':
                fresh.outcome(copy.deepcopy(c))
                past.append(c)
        for c, w in zip(base, want):
            got = fresh.outcome(copy.deepcopy(c))
            if got != w:
                rec.violation('other calls of the pair change the result', src=s, tgt=t, text=c[2][:200], kw=repr(c[3]), got=got[1][:200], before=w[1][:200], calls_between=repr(past)[:900])
            else:
                rec.ok(('g', s, t, c[2], repr(c[3])))
        rec.count['results equal before and after other calls of the pair'] += len(base)


VISIBLE = ('RemoveDiacritics', 'capitalizeSentence', 'indicDandas', 'romanNumerals', 'indicNumerals', 'romanFullStop', 'mDotBelowToAbove', 'mDotAboveToBelow', 'RomanLoCChandrabindu', 'AnusvaratoNasalASTISO', 'removeTrailingA')


def run(ctx):
    boot.get()
    ctx.rule = 'distinct calls whose result after a history of other calls equals that of a process that converted nothing before'
    rng = core.rng('C08 plan')
    cs = []
    ss = list(cases.ALL)
    rng.shuffle(ss)
    for s in ss:                        # every script as source and as target
        cs.append(cases.case(rng, s=s))
        cs.append(cases.case(rng, t=s))
    while len(cs) < ctx.n(2600, 40000):
        c = cases.case(rng)
        cs.append(c)
        cs += neighbours(rng, c)
    cs = [c for c in cs if c[0] != 'PersianDMG']
    k = 40
    res = ctx.map(__name__, 'pristine', [cs[i:i + k] for i in range(0, len(cs), k)])
    want = [w for chunk in res for w in chunk]
    if len(want) != len(cs):
        raise core.Inconclusive('fresh results are missing')
    both = [(c, w) for c, w in zip(cs, want) if w is not None]
    ctx.extra['fresh processes'] = len(both)
    if len(both) < .98 * len(cs):
        raise core.Inconclusive('no fresh result for %d calls' % (len(cs) - len(both)))
    jobs = []
    for salt in range(ctx.n(2, 4)):
        order = list(both)
        if salt:
            rng.shuffle(order)
        n = ctx.n(110, 400)
        jobs += [((salt, i), order[i:i + n], False) for i in range(0, len(order), n)]
    rng.shuffle(jobs)
    ctx.map(__name__, 'history', jobs)
    order = list(both)
    rng.shuffle(order)
    ctx.map(__name__, 'history', [(('f', i), order[i:i + 60], True) for i in range(0, ctx.n(900, len(order)), 60)])
    ctx.map(__name__, 'again', [(i, order[i:i + 60]) for i in range(0, ctx.n(600, len(order)), 60)])
    sp = ['RomanLoC'] + [x for x in cases.SC['semitic_iso'] if x != 'PersianDMG']
    ps = [(s, x) for s in cases.ALL for x in sp if s not in sp] + [(x, s) for s in cases.ALL for x in sp if s not in sp]
    rng.shuffle(ss)
    ps += [(s, t) for d in (1, 2, 3) for s, t in zip(ss, ss[d:] + ss[:d])]
    ps += [(rng.choice(ss), rng.choice(ss)) for _ in range(ctx.n(500, 20000))]
    ps = [p for p in ps if not set(p) & {'Hiragana', 'Katakana', 'PersianDMG', 'Khmer'} or rng.random() < .1]
    rng.shuffle(ps)
    ctx.map(__name__, 'groups', [ps[i:i + 25] for i in range(0, len(ps), 25)])
    ctx.minimum = 1500
