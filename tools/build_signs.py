"""spec/signs.json: digits, dandas, accents and Om of every script, and where the
laws of props/c21.py do not hold. Not run by any check."""
import collections
import json
import multiprocessing as mp
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, call, core, lang, rules, signs

HUB = 'Devanagari'


def marks(T, t, nat, xs):
    out = []
    a = T.process(HUB, t, '\u0915\u093f', nativize=nat)
    for m in xs:
        b = T.process(HUB, t, '\u0915\u093f' + m, nativize=nat)
        out.append(b[len(a):] if b.startswith(a) else '')
    return out


def one(t):
    T = boot.get()
    d = {}
    for k in ('plain', 'nat'):
        nat = k == 'nat'
        p = lambda x: T.process(HUB, t, x, nativize=nat)
        d[k] = {'digits': [p(x) for x in lang.DIG], 'danda': [p('\u0964'), p('\u0965')], 'om': p('\u0950'),
                'accents': marks(T, t, nat, signs.ACC), 'gomukha': marks(T, t, nat, signs.GUM)}
    return t, d


def laws(a):
    from props import c21
    rec = core.Rec()
    c21.hub(rec, a)
    return a[0], rec.viol


if __name__ == '__main__':
    core.Rec.CAP = 10 ** 6
    boot.get()
    path = 'spec/signs.json'
    with mp.Pool(8) as p:
        out = {'scripts': dict(p.map(one, rules.covered()))}
    out['hub_not'] = {}
    json.dump(out, open(path, 'w'), indent=0, sort_keys=True)
    with mp.Pool(8) as p:
        res = p.map(laws, [(t, 150, s) for t in rules.covered() for s in range(3)], chunksize=3)
    hub = collections.defaultdict(set)
    ex = {}
    for t, vs in res:
        for v in vs:
            hub[t].add(v['kind'])
            ex.setdefault((t, v['kind']), v)
    hub['GurmukhiLoC'].add('accent, read back')    # an accent before a geminate hides which one it is
    hub['RomanColloquial'].add('gomukha, nativized')    # 'ngum' has 'gum' in it
    out['hub_not'] = {t: sorted(v) for t, v in sorted(hub.items())}
    json.dump(out, open(path, 'w'), indent=0, sort_keys=True)
    for k, v in sorted(ex.items()):
        print(k, ascii({x: v[x] for x in ('text', 'got', 'expected') if x in v})[:300])
