"""Mutation analysis in one process (development only): every rule place of the instrumented copy is
switched off in turn, and the recorded texts that reach it are converted again.
usage: VERIF_REPO=INSTRUMENTED rulemut.py OUT"""
import collections, json, multiprocessing as mp, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core, trig
T = boot.get()
from aksharamukha import _cov
CS = trig.all_()
OFF = set()


def rep(site, s, *a, **k):
    if site in OFF:
        return s
    r = s.replace(*a, **k)
    if isinstance(s, str) and r != s:
        _cov.HIT.add(site)
    return r


def sub(site, mod, *a, **k):
    s = a[2] if len(a) > 2 else k.get('string')
    if site in OFF:
        return s
    r = mod.sub(*a, **k)
    if r != s:
        _cov.HIT.add(site)
    return r


_cov.rep, _cov.sub, _cov.HIT = rep, sub, set()


def go(i):
    s, t, x, kw, y, l = CS[i]
    try:
        return T.process(s, t, x, **kw)
    except Exception as e:
        return 'raised %r' % e


def hits(i):
    _cov.HIT.clear()
    y = go(i)
    return i, sorted(_cov.HIT), y == CS[i][4]


def off(a):
    site, idx = a
    OFF.add(site)
    try:
        for n, i in enumerate(idx):
            if go(i) != CS[i][4]:
                return site, n + 1
    finally:
        OFF.clear()
    return site, 0


if __name__ == '__main__':
    sites = [l.strip() for l in open(os.path.join(os.environ['VERIF_REPO'], 'aksharamukha/_sites.txt'))]
    by = collections.defaultdict(list)
    bad = 0
    with mp.Pool(8) as p:
        for i, h, same in p.imap_unordered(hits, range(len(CS)), 100):
            bad += not same
            for s in h:
                by[s].append(i)
        print('differ from the record', bad, flush=True)
        res = p.map(off, [(s, sorted(by[s], key=lambda i: (len(CS[i][2]), i))[:400]) for s in sites if s in by], 8)
    r = dict(res)
    out = {'unreached': [s for s in sites if s not in by], 'masked': [s for s in r if not r[s]], 'killed': sum(1 for s in r if r[s])}
    json.dump(out, open(sys.argv[1], 'w'))
    print(len(sites), 'places', len(r), 'reached', out['killed'], 'killed', len(out['masked']), 'masked')
