"""Reference results of options combined (spec/combos.json.gz):
[source, target, nativize, pre, post, line numbers, results]."""
import gzip, json, os, random, sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, cases, core, effects
T = boot.get()
from props import c13, c14

BY = {}
for k, l in effects.table()['touched'].items():
    for o, ps in l.items():
        for s, t in ps:
            BY.setdefault((k, t if k == 'post' else s), []).append(o)


def job(a):
    kind, x = a
    r = random.Random('combos %s %s' % (kind, x))
    own = BY[kind, x]
    s, t = ('Devanagari', x) if kind == 'post' else (x, 'Devanagari' if x != 'Devanagari' else 'IAST')
    if kind == 'post' and x in cases.SC['semitic'] and x != 'Latn' and r.random() < .5:
        s = 'Latn'
    lines = c14.lines_of(kind, s, t)
    base = effects.run(s, t, lines, kind, None).split('\n')
    if len(base) != len(lines):
        return []
    hit = {}
    for o in own:
        y = effects.run(s, t, lines, kind, o)
        y = y.split('\n') if isinstance(y, str) else []
        if len(y) == len(lines):
            hit[o] = {i for i in range(len(y)) if y[i] != base[i]}
    own = [o for o in own if hit.get(o)]
    out = []
    special = [o for o in own if x.lower() in o.lower() or o in cases.DOC]
    for k in range(24):
        n = r.choice((2, 2, 2, 3, 3, 4))
        pool = special if len(special) > n and r.random() < .7 else own
        if len(pool) < 2:
            break
        os_ = r.sample(pool, min(n, len(pool)))
        ix = sorted(set().union(*[r.sample(sorted(hit[o]), min(8, len(hit[o]))) for o in os_]) | set(r.sample(range(len(lines)), 6)))
        nat = r.random() < .3
        other = 'pre' if kind == 'post' else 'post'
        more = []
        if BY.get((other, s if other == 'pre' else t)) and r.random() < .4:
            more = [r.choice(BY[other, s if other == 'pre' else t])]
        kw = {kind + '_options': os_, other + '_options': more}
        try:
            y = T.process(s, t, '\n'.join(lines[i] for i in ix), nativize=nat, **kw).split('\n')
        except Exception as e:
            print('raised', s, t, kw, e)
            continue
        if len(y) == len(ix):
            out.append([kind, s, t, nat, kw['pre_options'], kw['post_options'], ix, y])
    return out


if __name__ == '__main__':
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        res = [x for l in ex.map(job, sorted(BY)) for x in l]
    with gzip.GzipFile('spec/combos.json.gz', 'wb', mtime=0) as f:
        f.write(json.dumps(res, ensure_ascii=False, separators=(',', ':')).encode('utf-8', 'surrogatepass'))
    print(len(res), os.path.getsize('spec/combos.json.gz'))
