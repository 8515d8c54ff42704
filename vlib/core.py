"""Runner: jobs over a pool of forked workers, verdicts, evidence, replay."""
import collections
import gzip
import hashlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
NPROC = 8


class Inconclusive(Exception):
    pass


class Stop(Exception):
    '''A hang was seen: no point in waiting for the rest.'''


class Hang(Exception):
    pass


def rng(*label):
    return random.Random(repr((SEED,) + label))


def spec(name):
    if name.endswith('.gz'):
        with gzip.open(os.path.join(HERE, 'spec', name), 'rt', encoding='utf-8') as f:
            return json.load(f)
    with open(os.path.join(HERE, 'spec', name), encoding='utf-8') as f:
        return json.load(f)


def h64(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode('utf-8', 'surrogatepass'),
                                          digest_size=8).digest(), 'big')


class Rec:
    """What one job observed."""
    CAP = 5                 # violations kept in full

    def __init__(self):
        self.evals = 0
        self.seen = set()
        self.viol = []
        self.nviol = 0
        self.samples = []
        self.count = collections.Counter()
        self.data = []          # handed back by Ctx.map

    def ok(self, key=None, n=1):
        self.evals += n
        if key is not None:
            self.seen.add(h64(key))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violation(self, kind, **info):
        self.nviol += 1
        if len(self.viol) < self.CAP:
            d = {'kind': kind}
            d.update(info)
            self.viol.append(d)


_BUDGET = 120.0      # CPU seconds of one job; jobs normally take under 5


def _onalarm(sig, frm):
    raise Hang('no answer within %d s of CPU time' % _BUDGET)


def _call(a):
    mod, fn, item = a
    rec = Rec()
    signal.signal(signal.SIGVTALRM, _onalarm)
    try:
        m = sys.modules[mod]
        signal.setitimer(signal.ITIMER_VIRTUAL, _BUDGET)
        getattr(m, fn)(rec, item)
    except Hang as e:
        rec.violation('hang', item=repr(item)[:300], error=str(e))
    except Inconclusive as e:
        return ('inconclusive', str(e))
    except Exception:
        return ('error', '%s %r\n%s' % (fn, repr(item)[:200], traceback.format_exc()[-3000:]))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ('ok', rec)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = TIER
        self.seed = SEED
        self.quick = TIER == 'quick'
        self.t0 = time.time()
        self.evals = 0
        self.distinct = 0
        self._seen = set()
        self.nviol = 0
        self.viol = []
        self.samples = []
        self.count = collections.Counter()
        self.findings = []      # (id, text) printed
        self.extra = {}
        self.rule = ''
        self.assumptions = []
        self.minimum = 1
        self._pool = None

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def merge(self, rec):
        self.evals += rec.evals
        self._seen |= rec.seen
        self.nviol += rec.nviol
        self.viol += rec.viol[:max(0, 40 - len(self.viol))]
        if rec.samples and len(self.samples) < 12:
            self.samples += rec.samples[:1]
        for k, v in rec.count.items():
            self.count[k] = max(self.count[k], v) if k.startswith('max ') else self.count[k] + v

    def map(self, mod, fn, items, procs=NPROC):
        """Run fn(rec, item) for every item in forked workers."""
        items = list(items)
        out = []
        if not items:
            return out
        mpc = mp.get_context('fork')
        try:
            with ProcessPoolExecutor(max_workers=min(procs, len(items)), mp_context=mpc) as ex:
                for status, r in ex.map(_call, [(mod, fn, i) for i in items],
                                        chunksize=max(1, len(items) // (procs * 12))):
                    if status == 'ok':
                        self.merge(r)
                        out.append(r.data)
                        if any(v['kind'] == 'hang' for v in r.viol):
                            ex.shutdown(wait=False, cancel_futures=True)
                            for p in list(getattr(ex, '_processes', {}).values()):
                                p.kill()
                            raise Stop()
                    elif status == 'inconclusive':
                        raise Inconclusive(r)
                    else:
                        raise Inconclusive('harness error: ' + r)
        except BrokenProcessPool:
            raise Inconclusive('a worker died')
        return out

    def here(self, mod, fn, items):
        for i in items:
            status, r = _call((mod, fn, i))
            if status == 'ok':
                self.merge(r)
            else:
                raise Inconclusive(r)

    # ---- end of run
    def finish(self):
        distinct = len(self._seen)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': self.evals,
                'distinct_nontrivial': distinct,
                'rule': self.rule,
                'samples': self.samples[:12],
                'observed': dict(sorted(self.count.items())),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': self.nviol,
        }
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        out = os.path.join(HERE, 'evidence', self.pid + '.json')
        with open(out + '.tmp', 'w', encoding='utf-8') as f:
            f.write(json.dumps(ev, ensure_ascii=False, indent=1)
                    .encode('utf-8', 'backslashreplace').decode('utf-8'))
        os.replace(out + '.tmp', out)
        print('%s tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs' % (
            self.pid, self.tier, self.seed, self.evals, distinct, self.nviol, ev['wall_s']))
        for f in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, f))
        if self.nviol:
            rdir = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s-%s-%d.json' % (self.pid, self.tier, self.seed))
            with open(path, 'w', encoding='utf-8') as f:
                f.write(json.dumps({'property': self.pid, 'tier': self.tier, 'seed': self.seed,
                                    'rerun': 'VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s' % (self.seed, self.tier, self.pid),
                                    'violations': self.viol, 'total': self.nviol},
                                   ensure_ascii=True, indent=1, default=repr))
            for v in self.viol[:8]:
                print('  ' + json.dumps(v, ensure_ascii=True, default=repr)[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if distinct < self.minimum or self.evals < self.minimum:
            print('INCONCLUSIVE property=%s observed too little (%d)' % (self.pid, distinct))
            return 2
        return 0


def main(argv):
    pid = argv[1]
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import importlib
    ctx = Ctx(pid)
    try:
        mod = importlib.import_module('props.' + pid.lower())
        try:
            mod.run(ctx)
        except Stop:
            pass
        from . import known
        known.announce(ctx)
        return ctx.finish()
    except Inconclusive as e:
        print('INCONCLUSIVE property=%s %s' % (pid, e))
        return ctx.finish() if ctx.nviol else 2
