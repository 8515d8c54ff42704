"""C09: concurrent conversions, other hash seeds and other environments give the same results."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile
import threading
import time
from vlib import boot, cases, core, fresh


def pristine(rec, chunk):
    for c in chunk:
        rec.data.append(fresh.forked(fresh.outcome, c))


# ---- threads

def race(plan):
    """In a forked child: several threads convert at the same time."""
    seed, warm, delays, work = plan
    rng = random.Random(seed)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    if warm:
        for c, _ in work[0][:1]:
            fresh.outcome(copy.deepcopy(c))
    bad, done, switches = [], [0], [0]
    last = [None]
    gate = threading.Barrier(len(work))

    def prof(frame, event, arg):
        if event == 'call' and 'aksharamukha' in frame.f_code.co_filename:
            me = threading.get_ident()
            if last[0] != me:
                last[0] = me
                switches[0] += 1
            if rng.random() < delays:
                time.sleep(0 if rng.random() < .8 else 1e-4)

    def body(cs):
        if delays:
            sys.setprofile(prof)
        gate.wait()
        for c, want in cs:
            got = fresh.outcome(copy.deepcopy(c))
            if got != tuple(want):
                bad.append((c, want, got))
            done[0] += 1
    th = [threading.Thread(target=body, args=(w,), daemon=True) for w in work]
    for t in th:
        t.start()
    for t in th:
        t.join(50)
    sys.setswitchinterval(old)
    return bad, done[0], switches[0], any(t.is_alive() for t in th)


def threads(rec, a):
    salt, pool, cold = a
    rng = core.rng('C09t', salt)
    n = rng.choice((2, 3, 4, 8))
    work = [[rng.choice(pool) for _ in range(rng.randint(3, 10))] for _ in range(n)]
    if rng.random() < .3:           # everybody the same calls, in the same order
        work = [work[0]] * n
    delays = rng.choice((0, .02, .1, .3))
    r = fresh.forked(race, (rng.random(), not cold and rng.random() < .5, delays, work))
    if r is None:
        rec.violation('threads gave no answer', calls=repr(work)[:500])
        return
    bad, done, sw, alive = r
    if alive:
        rec.violation('threads did not finish', calls=repr(work)[:500])
    for c, want, got in bad[:3]:
        rec.violation('a concurrent conversion gave another result', src=c[0], tgt=c[1], text=c[2][:200], kw=repr(c[3]),
                      got=got[1][:200], alone=want[1][:200], threads=n)
    if not bad:
        rec.ok(('t', salt), n=done)
        rec.count['conversions in concurrent threads'] += done
        rec.count['rounds of 2 to 8 threads'] += 1
        rec.count['thread switches inside the package seen'] += sw
        rec.sample({'threads': n, 'conversions': done, 'switches observed': sw, 'all equal to their result alone': True})


# ---- environments

CHILD = '''
import sys, json, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, %(repo)r)
sys.dont_write_bytecode = True
import requests
class N(Exception): pass
def no(*a, **k): raise N()
requests.get = requests.post = no
import logging; logging.disable(50)
from aksharamukha import transliterate as T
out = []
for s, t, x, kw in json.load(open(%(file)r, encoding='utf-8')):
    try: out.append(('ok', T.process(s, t, x, **kw)))
    except Exception as e: out.append(('raises', type(e).__name__ if not isinstance(e, N) else 'NetworkAttempt'))
json.dump(out, open(%(out)r, 'w', encoding='ascii'))
'''
ENVS = [{'PYTHONHASHSEED': str(k)} for k in (0, 1, 2, 7, 42, 1234, 99991, 4294967295)] + [
    {'PYTHONHASHSEED': 'random'}, {'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'}, {'LC_ALL': 'C.UTF-8', 'TZ': 'Asia/Kolkata'},
    {'PYTHONOPTIMIZE': '1'}, {'PYTHONOPTIMIZE': '2'}, {'PYTHONMALLOC': 'debug'}, {'PYTHONDEVMODE': '1'}]


def environment(rec, a):
    env, cs = a
    d = tempfile.mkdtemp(prefix='verif-env-')
    try:
        f, o = d + '/in.json', d + '/out.json'
        with open(f, 'w', encoding='utf-8') as h:
            json.dump([c for c, _ in cs], h)
        e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and not k.startswith('LC_')}
        e.update(env)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CHILD % {'repo': boot.REPO, 'file': f, 'out': o}], cwd=d, env=e,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=700)
        if p.returncode:
            rec.violation('the package fails in another environment', env=env, error=p.stderr.decode('utf-8', 'replace')[-400:])
            return
        with open(o, encoding='ascii') as h:
            res = json.load(h)
        for (c, want), got in zip(cs, res):
            if tuple(got) != tuple(want):
                rec.violation('the environment changes a result', env=env, src=c[0], tgt=c[1], text=c[2][:200], kw=repr(c[3]), got=got[1][:200], expected=want[1][:200])
            else:
                rec.ok((env, c[0], c[1], c[2]))
                rec.count['results equal in other environments'] += 1
        if os.listdir(d) and sorted(os.listdir(d)) != ['in.json', 'out.json']:
            rec.violation('files appeared in the working directory', env=env, files=sorted(os.listdir(d)))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    boot.get()
    ctx.rule = 'distinct rounds of concurrent conversions, and distinct (environment, call), whose every result equals that of the call alone in a fresh process'
    rng = core.rng('C09 plan')
    cs = []
    ss = list(cases.ALL)
    for s in ss:
        cs.append(cases.case(rng, s=s))
        cs.append(cases.case(rng, t=s))
    while len(cs) < ctx.n(700, 8000):
        cs.append(cases.case(rng))
    # deterministic on its own: no answer taken from a text that had none
    k = 30
    res = [w for chunk in ctx.map(__name__, 'pristine', [cs[i:i + k] for i in range(0, len(cs), k)]) for w in chunk]
    both = [(c, w) for c, w in zip(cs, res) if w is not None]
    if len(both) < .98 * len(cs):
        raise core.Inconclusive('no fresh result for %d calls' % (len(cs) - len(both)))
    rounds = []
    for r in range(ctx.n(170, 3000)):
        k = rng.random()
        if k < .4:                          # one target or one source: the same code paths
            s, o = rng.choice(both)[0][:2], rng.randint(0, 1)
            pool = [b for b in both if b[0][o] == s[o]]
        else:
            pool = rng.sample(both, 12)
        rounds.append((r, pool, rng.random() < .5))
    ctx.map(__name__, 'threads', rounds)
    rng.shuffle(both)
    envs = list(enumerate(ENVS if ctx.quick else ENVS + [{'PYTHONHASHSEED': str(rng.randrange(1, 1 << 32))} for _ in range(40)]))
    jobs = []
    n = ctx.n(220, 1200)
    for i, e in envs:
        off = (i * n) % max(1, len(both) - n)
        jobs.append((e, (both + both)[off:off + n]))
    ctx.map(__name__, 'environment', jobs)
    ctx.extra['environments'] = len(jobs)
    ctx.minimum = 2000
