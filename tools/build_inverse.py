"""Options whose result is read back exactly, as it is or with a pre-processing
option (spec/inverse.json): [script, post option, pre option or null]."""
import json, os, sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, cases, core, effects, lang, rules
T = boot.get()
inv = rules.inventories()


def words(s, n, label):
    rng = core.rng(label, s)
    return inv[s].words(rng, n)


def back(t, o, p, ws):
    x = effects.run('Devanagari', t, ws, 'post', o)
    if not isinstance(x, str): return None, None
    y = effects.run(t, 'Devanagari', x.split('\n'), 'pre', p)
    if not isinstance(y, str) or len(y.split('\n')) != len(ws): return x.split('\n'), None
    return x.split('\n'), y.split('\n')


def job(t):
    touched = effects.table()['touched']
    post = [o for o, l in touched['post'].items() if any(x[1] == t for x in l) and (len(l) <= 16 or t.lower() in o.lower())]
    pre = [o for o, l in touched['pre'].items() if any(x[0] == t for x in l) and (len(l) <= 16 or t.lower() in o.lower()) and o not in effects.SKIP]
    ws = words(t, 300, 'inv')
    base, _ = back(t, None, None, ws)
    out = []
    for o in post:
        x, y = back(t, o, None, ws)
        if x is None or sum(a != b for a, b in zip(x, base)) < 6: continue
        if y == ws: out.append((t, o, None)); continue
        r0 = sum(a == b for a, b in zip(y, ws)) if y else 0
        for p in pre:
            _, y = back(t, o, p, ws)
            if y == ws: out.append((t, o, p))
            elif y and sum(a == b for a, b in zip(y, ws)) > .9 * len(ws): 
                n = [(w, a) for w, a in zip(ws, y) if a != w]
                print('nearly', t, o, p, r0, len(n), n[:2])
        if r0 > .9 * len(ws): print('nearly', t, o, None, r0)
    good = []
    for t, o, p in out:
        ok = True
        for k in range(8):
            ws = words(t, 600, 'inv%d' % k)
            if back(t, o, p, ws)[1] != ws: ok = False; print('fails later', t, o, p); break
        if ok: good.append((t, o, p))
    return good


if __name__ == '__main__':
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        res = [g for l in ex.map(job, [t for t in inv if t in cases.ALL and t != 'Devanagari']) for g in l]
    json.dump(res, open('spec/inverse.json', 'w'), ensure_ascii=False, indent=0)
    print(len(res)); print(res)
