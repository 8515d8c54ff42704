"""Search for texts that reach every rule (development only).
usage: VERIF_REPO=INSTRUMENTED triggers.py OUT SECONDS SEED
Feedback: a rule is (place, what it replaces); a rule reached but never applied is aimed at by texts made
from its pattern, in the calls that reached it."""
import os, random, signal, sys, time, json, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
try:
    import re._parser as sp
except ImportError:
    import sre_parse as sp
from vlib import boot, cases, core, hostile
OUT, SECS, SEED = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
T = boot.get()
from aksharamukha import _cov
rng = random.Random(SEED)
OPT = core.spec('options.json')
KEEP, FRONT, CTX = [], {}, {}


class Late(BaseException):
    pass


def alarm(*a):
    raise Late


signal.signal(signal.SIGALRM, alarm)


def gen(p, groups, fill, depth=0):
    out = []
    for op, av in p:
        n = str(op)
        if n == 'LITERAL':
            out.append(chr(av))
        elif n == 'NOT_LITERAL' or n == 'ANY':
            out.append(fill())
        elif n == 'IN':
            c = rng.choice(av)
            k = str(c[0])
            if k == 'NEGATE':
                out.append(fill())
            elif k == 'LITERAL':
                out.append(chr(c[1]))
            elif k == 'RANGE':
                out.append(chr(rng.randint(*c[1])))
            else:
                k = str(c[1])
                out.append(' ' if 'SPACE' in k and 'NOT' not in k or 'NOT_WORD' in k else '1' if 'DIGIT' in k and 'NOT' not in k else fill())
        elif n == 'BRANCH':
            out.append(gen(rng.choice(av[1]), groups, fill, depth + 1))
        elif n == 'SUBPATTERN':
            g = gen(av[-1], groups, fill, depth + 1)
            if av[0]:
                groups[av[0]] = g
            out.append(g)
        elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, q = av
            out.append(''.join(gen(q, groups, fill, depth + 1) for _ in range(rng.randint(lo, min(hi, lo + 2)))))
        elif n == 'GROUPREF':
            out.append(groups.get(av, ''))
        elif n == 'ASSERT':
            out.append(gen(av[1], groups, fill, depth + 1))
        elif n == 'CATEGORY':
            out.append(fill())
    return ''.join(out)


PARSED = {}


def sample(key, s, t):
    site, arg = key
    if site.endswith(':replace'):
        return arg
    if arg not in PARSED:
        try:
            PARSED[arg] = sp.parse(arg)
        except Exception:
            PARSED[arg] = None
    if PARSED[arg] is None:
        return arg
    al = (hostile.OWN.get(t, '') + hostile.OWN.get(s, '')) or 'abc'
    return gen(PARSED[arg], {}, lambda: rng.choice(al))


def call(s, t, x, kw):
    signal.setitimer(signal.ITIMER_REAL, 2)
    try:
        return T.process(s, t, x, **kw)
    except Exception:
        return None
    except Late:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def known(keys, c):
    for k in keys:
        l = CTX.setdefault(k, [])
        if len(l) < 8:
            l.append(c)
        elif rng.random() < .1:
            l[rng.randrange(8)] = c


SEEN = set()


def run(s, t, x, kw):
    if len(x) > 60 or (s, t) == ('Tamil', 'IPA') or any(0xd800 <= ord(c) < 0xe000 for c in x):
        return
    _cov.REACHED.clear()
    del _cov.NEW[:]
    try:
        y = call(s, t, x, kw)
    except Late:
        return
    reached = list(_cov.REACHED)
    new = list(_cov.NEW)
    if new and y is not None and len(y) <= 400:
        KEEP.append((s, t, x, kw, [(k[0], zlib.crc32(k[1].encode('utf8', 'replace'))) for k in new]))
        for k in new:
            FRONT.pop(k, None)
    fr = [k for k in reached if k not in _cov.FIRED]
    for k in fr:
        if k not in FRONT:
            FRONT[k] = 0
    if fr:
        known(rng.sample(fr, min(len(fr), 60)), (s, t, kw))


def aim():
    ks = rng.sample(list(FRONT), min(len(FRONT), 40))
    k = min(ks, key=lambda q: FRONT[q] / (6 if DONE and q[0] not in DONE else 1))
    if k not in CTX:
        FRONT[k] += 1
        return
    FRONT[k] += 1
    for _ in range(3):
        s, t, kw = rng.choice(CTX[k])
        g = sample(k, s, t)
        if not g.strip() or len(g) > 50:
            continue
        r = rng.random()
        if r < .45:
            x = g
        elif r < .75:
            x = call(t, s, g, {'nativize': False})
        elif r < .9:
            x = call('Devanagari' if rng.random() < .5 else 'ISO', s, g, {'nativize': False})
        else:
            x = call(s, t, g, kw)
        if not x:
            continue
        al = hostile.OWN.get(s, '') or 'abc'
        r = rng.random()
        if r < .3:
            x = rng.choice(al) + x
        elif r < .5:
            x = x + rng.choice(al)
        elif r < .7:
            x = ''.join(rng.choice(al) for _ in range(rng.randint(1, 2))) + x + ''.join(rng.choice(al) for _ in range(rng.randint(1, 2)))
        elif r < .8:
            x = x + ' ' + x
        run(s, t, x, kw)


def wander():
    if KEEP and rng.random() < .3:
        s, t, x, kw, _ = rng.choice(KEEP)
        s2, t2, x2, kw2, _ = rng.choice(KEEP)
        if rng.random() < .5:
            x = x + x2
        elif len(x) > 1:
            i = rng.randrange(len(x))
            x = x[:i] + rng.choice(hostile.OWN.get(s, '') or 'abc') + x[i + (rng.random() < .5):]
        if rng.random() < .3:
            t = t2
        if rng.random() < .2:
            kw = kw2
        run(s, t, x, kw)
        return
    s, t = rng.choice(cases.ALL), rng.choice(cases.ALL)
    kw = {'nativize': rng.random() < .5}
    r = rng.random()
    if r < .35:
        o = rng.choice(OPT['post'])
        kw['post_options'] = [o]
        m = [z for z in cases.ALL if z.lower() in o.lower()]
        if m and rng.random() < .8:
            t = rng.choice(m)
    elif r < .6:
        o = rng.choice(OPT['pre'])
        kw['pre_options'] = [o]
        m = [z for z in cases.ALL if z.lower() in o.lower()]
        if m and rng.random() < .8:
            s = rng.choice(m)
    if rng.random() < .15:
        t = s
    run(s, t, cases.words(rng, s, rng.randint(1, 3)), kw)


if len(sys.argv) > 4:                  # what is reached already need not be found again
    from vlib import trig
    cs = trig.all_()
    for i, c in enumerate(cs):
        if not i % 2 or len(cs) < 20000:
            run(c[0], c[1], c[2], c[3])
    del KEEP[:]
    DONE = {k[0] for k in _cov.FIRED}
    print('replayed', len(_cov.FIRED), len(DONE), flush=True)
else:
    DONE = set()
t0, n = time.time(), 0
slow = {'Hiragana', 'Katakana', 'Khmer'}
while time.time() - t0 < SECS:
    n += 1
    if FRONT and rng.random() < .65:
        aim()
    else:
        wander()
sites = {l.strip() for l in open(os.path.join(os.environ['VERIF_REPO'], 'aksharamukha/_sites.txt'))}
done = {k[0] for k in _cov.FIRED}
json.dump({'keep': KEEP, 'front': [[k[0], k[1][:60], v] for k, v in FRONT.items()], 'missed': sorted(sites - done)}, open(OUT, 'w'))
print(n, 'steps', len(KEEP), 'kept', len(_cov.FIRED), 'rules applied', len(FRONT), 'reached only', len(sites & done), 'of', len(sites), 'places', flush=True)
