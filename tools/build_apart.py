"""spec/apart.json: [kind, option, source, target, separators] where the
effect of the option does not depend on the neighbours of a text."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core, effects
boot.get()
from props import c14
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp


def f(a):
    kind, s, t, o = a
    seps = ['\n', ' ']
    for seed in range(8):
        core.SEED = seed
        r = core.Rec()
        c14.apart(r, (kind, s, t, o, seps, 150))
        seps = [x for x in seps if x not in r.data]
        if not r.evals and not r.nviol:
            return None
    return [kind, o, s, t, ''.join(seps)]


if __name__ == '__main__':
    E = effects.table()['entries']
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        res = [x for x in ex.map(f, [(k, s, t, o) for k, o, s, t, e in E], chunksize=4) if x and x[4]]
    json.dump(res, open('spec/apart.json', 'w'), ensure_ascii=False, separators=(',', ':'))
    print(len(E), len(res), sum(len(x[4]) for x in res))
