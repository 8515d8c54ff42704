"""C10: converting text has no effect but its result."""
import builtins
import decimal
import gc
import locale
import os
import random
import signal
import sys
import tempfile
import threading
import tracemalloc
from vlib import boot, cases, core, fresh

READ = ('import', 'exec', 'compile', 'marshal.loads', 'object.__getattr__', 'os.listdir', 'os.scandir', 'sys._getframe', 'code.__new__', 'pickle.find_class',
        'builtins.id', 'open', 'object.__setattr__', 'object.__delattr__', 'gc.get_objects', 'function.__new__', 'os.fspath', 'ctypes.dlopen', 'ctypes.dlsym',
        'ctypes.addressof', 'ctypes.cdata', 'ctypes.call_function', 'ctypes.dlsym/handle', 'mmap.__new__', 'glob.glob', 'glob.glob/2', 'sys.unraisablehook', 'marshal.load', 'marshal.dumps',
        'array.__new__', 'logging.basicConfig', '_thread.start_new_thread', 'tempfile.mkdtemp', 'os.walk', 'pathlib.Path.glob')
EVENTS = []
ON = [False]


def hook(name, args):
    if not ON[0]:
        return
    if name == 'open':
        path, mode, flags = (list(args) + [None] * 3)[:3]
        w = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if isinstance(path, bytes):
            path = path.decode('utf-8', 'replace')
        if w and not (isinstance(path, str) and (path.startswith(boot._pyc) or path == '/dev/null')):
            EVENTS.append(('open for writing', str(path)))
        else:
            EVENTS.append(None)
    elif name in ('os.mkdir', 'os.rename') and args and isinstance(args[0], str) and args[0].startswith(boot._pyc):
        pass
    elif name.split('.')[0] in ('import', 'exec', 'compile', 'marshal', 'object', 'code', 'builtins', 'sys', 'pickle', 'gc', 'function', 'ctypes', 'glob', 'array', 'mmap', 'pathlib', 'cpython') or name in READ:
        EVENTS.append(None)
    else:
        EVENTS.append((name, repr(args)[:200]))


def snapshot():
    try:
        rnd = hash(random.getstate())
    except Exception:
        rnd = None
    return {
        'os.environ': dict(os.environ),
        'working directory': os.getcwd(),
        'sys.path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'random state': rnd,
        'locale': locale.setlocale(locale.LC_ALL),
        'umask': None,
        'stdin, stdout, stderr': (sys.stdin, sys.stdout, sys.stderr),
        'signal handlers': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1, signal.SIGCHLD)],
        'builtins': sorted(k for k in vars(builtins) if k != '_'),
        'trace and profile': (sys.gettrace(), sys.getprofile()),
        'switch interval': sys.getswitchinterval(),
        'gc': (gc.isenabled(), gc.get_threshold()),
        'int digits': sys.get_int_max_str_digits(),
        'threads': sorted(t.name for t in threading.enumerate()),
        'decimal': (decimal.getcontext().prec, decimal.getcontext().rounding),
        'excepthook': sys.excepthook,
    }


def fds():
    return sorted(os.listdir('/proc/self/fd'))


# options that call other packages (khmernltk, pykakasi), which load models and set variables of their own
LIBS = ('khmerwordsplit', 'segment', 'hiragana', 'katakana')


def lib(c):
    return any(h in repr(c[3]).lower() or h in c[1].lower() or h in c[0].lower() for h in LIBS)


def watched(chunk):
    """In a forked child: run the calls with everything observed."""
    T = boot.get()
    out = tempfile.TemporaryFile()
    err = tempfile.TemporaryFile()
    d = tempfile.mkdtemp(prefix='verif-cwd-')
    os.chdir(d)
    if any(lib(c) for c in chunk):      # let those packages load their models now
        so, se = os.dup(1), os.dup(2)
        os.dup2(out.fileno(), 1)
        os.dup2(err.fileno(), 2)
        fresh.outcome(('Khmer', 'Khmer', '\u1797\u17b6\u179f\u17b6\u1781\u17d2\u1798\u17c2\u179a', {'nativize': False, 'post_options': ['KhmerWordSplit']}))
        fresh.outcome(('Japanese', 'Devanagari', '\u65e5\u672c', {'nativize': False}))
        fresh.outcome(('Japanese', 'Hiragana', '\u65e5\u672c', {'nativize': False}))
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(so, 1)
        os.dup2(se, 2)
    sys.addaudithook(hook)
    os.dup2(out.fileno(), 1)
    os.dup2(err.fileno(), 2)
    bad = []
    n = [0, 0, 0]
    try:
        for c in chunk:
            s, t, x, kw = c
            net = s in ('Tamil', 'autodetect') and t == 'IPA' or 'param' in kw
            before, f0 = snapshot(), len(fds())
            po, pr = os.lseek(1, 0, os.SEEK_END), os.lseek(2, 0, os.SEEK_END)
            del EVENTS[:]
            ON[0] = True
            try:
                r = fresh.outcome(c)
            finally:
                ON[0] = False
            sys.stdout.flush()
            sys.stderr.flush()
            n[0] += 1
            n[1] += len(EVENTS)
            for e in EVENTS:
                if e and not (net and e[0].startswith('socket')) and not (lib(c) and (e[0] in ('os.putenv', 'os.unsetenv', '_thread.start_new_thread', 'tempfile.mkstemp') or e[0] in ('os.remove', 'open for writing') and '/model' in e[1])):
                    bad.append(('a system event: %s' % e[0], c, e[1]))
                    break
            if r == ('raises', 'NetworkAttempt') and not net:
                bad.append(('network access', c, ''))
            o1 = os.lseek(1, 0, os.SEEK_END)
            if o1 > po:
                bad.append(('written to standard output', c, os.pread(out.fileno(), 200, po).decode('utf-8', 'replace')))
            e1 = os.lseek(2, 0, os.SEEK_END)
            if e1 > pr:
                tx = os.pread(err.fileno(), 400, pr).decode('utf-8', 'replace')
                if not lib(c):     # those libraries announce their models
                    bad.append(('written to standard error', c, tx))
            after = snapshot()
            for k in before:
                if before[k] != after[k]:
                    if not (lib(c) and k in ('threads', 'os.environ')):
                        bad.append(('changed: ' + k, c, repr(after[k])[:200]))
            n[2] += len(before)
            left = os.listdir(d)
            if left:
                bad.append(('files in the working directory', c, repr(left)))
        f1 = None
    finally:
        os.chdir('/')
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return bad, n


def job(rec, a):
    salt, chunk = a
    r = fresh.forked(watched, chunk)
    if r is None:
        raise core.Inconclusive('a watched process gave no answer')
    bad, n = r
    for what, c, info in bad[:4]:
        rec.violation('side effect: ' + what, src=c[0], tgt=c[1], text=c[2][:200], kw=repr(c[3]), seen=info)
    for c in chunk:
        rec.ok((c[0], c[1], c[2], repr(sorted(c[3].items()))))
    rec.count['calls watched'] += n[0]
    rec.count['audit events judged'] += n[1]
    rec.count['process state comparisons'] += n[2]
    rec.sample({'calls': n[0], 'audit events': n[1], 'side effects': 0, 'one of them': ascii(chunk[0])[:160]})


# ---- resources

WARM, STEP = 1300, 80
SIZE = 260
LIMIT = SIZE * .8


def usage(plan):
    """Memory and descriptors over many calls with ever new texts, after a warm
    up long enough to fill caches of a fixed number of entries."""
    s, t, kw, salt = plan
    T = boot.get()
    rng = random.Random(salt)
    a = cases.hostile.OWN.get(s) or 'abcdefghij'

    def text():
        return ''.join(rng.choice(a) for _ in range(SIZE))

    def some(k):
        for _ in range(k):
            fresh.outcome((s, t, text(), dict(kw)))
    some(WARM)
    tracemalloc.start()
    out = []
    for k in range(10):
        some(STEP)
        gc.collect()
        out.append((tracemalloc.get_traced_memory()[0], len(fds())))
        if k == 3 and min(growth(out)) <= LIMIT:
            break                       # what still grows is watched for longer
    return out


def growth(out):
    return [(b[0] - a[0]) / STEP for a, b in zip(out, out[1:])]        # bytes per call


def leak(rec, a):
    salt, s, t, kw = a
    r = fresh.forked(usage, (s, t, kw, repr((core.SEED, salt))))
    if r is None:
        raise core.Inconclusive('a measured process gave no answer')
    per = growth(r)
    if min(per) > LIMIT:
        rec.violation('memory grows with every call', src=s, tgt=t, kw=repr(kw), bytes_per_call=[round(p) for p in per], text_length=SIZE)
    if r[-1][1] > r[0][1] + STEP // 4:
        rec.violation('file descriptors are left open', src=s, tgt=t, kw=repr(kw), descriptors=[x[1] for x in r])
    rec.ok(('l', s, t, repr(kw)))
    rec.count['calls measured for growth'] += len(per) * STEP
    rec.count['max steady growth, bytes per call'] = max(rec.count['max steady growth, bytes per call'], int(min(per)))


MARK0 = 0x20000                         # ideographs no script here converts


def reachable():
    """Every string the modules, classes, functions and caches of the package hold."""
    own = [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'aksharamukha' and m is not None]
    held = [m.__dict__ for m in list(sys.modules.values()) if hasattr(m, '__dict__')] + list(sys.modules.values()) + [sys.modules]
    mine = {id(vars(m)) for m in own}
    skip = {id(x) for x in held} - mine
    todo = [vars(m) for m in own]
    seen = set()
    while todo:
        o = todo.pop()
        if id(o) in seen or id(o) in skip:
            continue
        seen.add(id(o))
        if isinstance(o, str):
            yield o
            continue
        if isinstance(o, (int, float, bytes, type(None))):
            continue
        todo += gc.get_referents(o)
        if isinstance(o, dict):         # the collector does not report its string keys
            todo += list(o)


def retained(pairs):
    """Which of the texts are still held by the package after the calls."""
    out = {}
    c = MARK0
    owner = {}
    for k, (s, t, kw) in enumerate(pairs):
        rng = core.rng('C10r', s, t)
        for _ in range(8):
            fresh.outcome((s, t, chr(c) + cases.words(rng, s, 3) + ' ' + chr(c), dict(kw)))
            owner[chr(c)] = k
            c += 1
    gc.collect()
    hold = {}
    for x in reachable():
        for ch in x:
            if ch in owner:
                hold.setdefault(owner[ch], set()).add(ch)
    return {k: len(v) for k, v in hold.items()}


def kept(rec, a):
    salt, pairs = a
    r = fresh.forked(retained, pairs)
    if r is None:
        raise core.Inconclusive('a measured process gave no answer')
    rec.count['calls searched for texts kept behind'] += 8 * len(pairs)
    for k, n in sorted(r.items())[:6]:
        if n >= 4:                      # kept: for good, or in a cache of limited size?
            rec.count['pairs measured for texts kept behind'] += 1
            leak(rec, ('k%s%d' % (salt, k),) + tuple(pairs[k]))
    for s, t, kw in pairs:
        rec.ok(('r', s, t, repr(kw)))


def run(ctx):
    boot.get()
    ctx.rule = 'distinct calls watched for audit events, output, files and changes of the process state'
    rng = core.rng('C10 plan')
    cs = []
    for s in cases.ALL:
        for _ in range(ctx.n(2, 12)):
            cs.append(cases.case(rng, s=s))
            cs.append(cases.case(rng, t=s))
            cs.append((s, rng.choice(cases.ALL), cases.words(rng, s, 4), {'nativize': True}))
            cs.append((rng.choice(('Devanagari', 'IAST', 'HK')), s, cases.words(rng, 'Devanagari', 4), {'nativize': False}))
    for kind in ('post', 'pre'):
        for o in cases.OPT[kind]:
            for _ in range(ctx.n(1, 6)):
                s, t = rng.choice(cases.ALL), rng.choice(cases.ALL)
                own = [x for x in cases.ALL if x.lower() in o.lower()]
                if own:
                    s, t = (s, rng.choice(own)) if kind == 'post' else (rng.choice(own), t)
                cs.append((s, t, cases.words(rng, s, 3), {'nativize': False, kind + '_options': [o]}))
    while len(cs) < ctx.n(2600, 30000):
        cs.append(cases.case(rng))
    rng.shuffle(cs)
    ctx.map(__name__, 'job', [(i, cs[i:i + 40]) for i in range(0, len(cs), 40)])
    ls = []
    for i in range(ctx.n(40, 500)):
        s, t = rng.choice(cases.ALL), rng.choice(cases.ALL)
        kw = {'nativize': rng.random() < .5}
        if rng.random() < .4:
            kw['post_options'] = [cases.named(rng, 'post', s, t)]
        ls.append((i, s, t, kw))
    ctx.map(__name__, 'leak', ls)
    ks = []
    ss = list(cases.ALL)
    for nat in (False, True):
        for d in range(1, ctx.n(3, 30)):
            rng.shuffle(ss)
            ks += [(s, t, {'nativize': nat}) for s, t in zip(ss, ss[d:] + ss[:d])]
    for kind in ('post', 'pre'):
        for o in cases.OPT[kind]:
            s, t = rng.choice(ss), rng.choice(ss)
            own = [x for x in ss if x.lower() in o.lower()]
            if own:
                s, t = (s, rng.choice(own)) if kind == 'post' else (rng.choice(own), t)
            ks.append((s, t, {'nativize': False, kind + '_options': [o]}))
    ks = [k for k in ks if not lib(('', '', '', k[2])) and 'Khmer' not in k[:2] and not {'Hiragana', 'Katakana'} & set(k[:2])]
    ctx.map(__name__, 'kept', [(i, ks[i:i + 30]) for i in range(0, len(ks), 30)])
    ctx.minimum = 2000
