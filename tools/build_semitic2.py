"""Adds to spec/semitic.json: every letter as written (table), reference
blocks of every pair, and the pairs outside the laws."""
import json, os, random, sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, cases, core, effects, nativ, rules, sem
T = boot.get()
D = json.load(open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'aksharamukha/json/gimeltra_data.json')))['ssub']
d = core.spec('semitic.json')
d = d.get('scripts', d)
sem.spec = lambda: {'scripts': d}
S = sorted(d)


def P(s, t, ws):
    return T.process(s, t, '\n'.join(ws), nativize=False).split('\n')


def hub(a):
    s, t = a
    n = 0
    for k in range(4):
        rng = random.Random(str((a, k)))
        ws = sem.of(s).meet(sem.of(t)).words(rng, 300)
        n += sum(p != q for p, q in zip(P(s, t, P('Latn', s, ws)), P('Latn', t, ws)))
    return [s, t, n]


def block(a):
    s, t = a
    l = sem_lines(s)
    y = P(s, t, l)
    if len(y) != len(l):
        return [s, t, None]
    return [s, t, ''.join(nativ.digest(y[i:i + 25]) for i in range(0, len(l), 25))]


def sem_lines(s):
    return effects.table()['sem'] if s == 'Latn' else effects.table()['dev'] if s == 'Devanagari' else effects.table()['src'][s][:450]


def tab(x):
    return x, {k: T.process('Latn', x, k, nativize=False) for k in D['Latn'][x]}, {k: T.process(x, 'Latn', k, nativize=False) for k in D[x]['Latn']}


if __name__ == '__main__':
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        h = [r[:2] for r in ex.map(hub, [(s, t) for s in S for t in S if s != t], chunksize=10) if r[2]]
        ind = [t for t in rules.inventories() if t in cases.ALL] + ['Latn']
        pairs = [(s, t) for s in S for t in S + ind if s != t] + [('Latn', t) for t in S + ind if t != 'Latn'] + [('Devanagari', t) for t in S]
        b = [r for r in ex.map(block, pairs, chunksize=20) if r[2]]
        tb = list(ex.map(tab, S))
    json.dump({'scripts': d, 'hub_not': h, 'blocks': b, 'write': {x: w for x, w, r in tb}, 'read': {x: r for x, w, r in tb}}, open('spec/semitic.json', 'w'), ensure_ascii=False, indent=0)
    print(len(h), len(b), len(pairs), os.path.getsize('spec/semitic.json'))
