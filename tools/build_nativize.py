"""spec/nativize.json.gz: what nativization does (reference)."""
import gzip, json, os, sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, cases, core, effects, nativ
T = boot.get()
SEM = set(cases.SC['semitic']) | set(cases.SC['semitic_iso']) - {'PersianDMG'}
TO = ['Latn', 'Devanagari', 'Arab', 'Arab-Fa', 'Hebr', 'Syrn', 'Thaa', 'Urdu', 'Hebrew', 'Thaana', 'IAST', 'Tamil', 'Telugu', 'Bengali', 'ISO233', 'Grek']


def P(s, t, l, n):
    return T.process(s, t, '\n'.join(l), nativize=n).split('\n')


def job(a):
    what, s, t = a
    tb = effects.table()
    lines = tb['dev'] if what in ('dev', 'many') else tb['sem'] if what == 'sem' else tb['src'][s][:450]
    if what == 'many':
        l = nativ.many()
        y = P(s, t, l, True)
        return (what, s, t, [nativ.digest(y[i:i + nativ.BLOCK]) for i in range(0, len(l), nativ.BLOCK)] if len(y) == len(l) else None)
    y, b = P(s, t, lines, True), P(s, t, lines, False)
    if not (len(y) == len(b) == len(lines)):
        print('lines', a)
        return (what, s, t, None)
    if what == 'own':                       # in full
        return (what, s, t, y)
    return (what, s, t, {i: u for i, (u, v) in enumerate(zip(y, b)) if u != v})


if __name__ == '__main__':
    tgts = [t for t in cases.ALL if t != 'RomanLoC']
    jobs = [('dev', 'Devanagari', t) for t in tgts] + [('sem', 'Latn', t) for t in tgts if t != 'Latn'] + [('own', s, t) for s in tgts if s in SEM for t in TO if s != t]
    jobs += [('many', 'Devanagari', t) for t in tgts]
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        res = list(ex.map(job, jobs))
    changed = {t for w, s, t, r in res if w == 'dev' and r}
    res = [r for r in res if r[3] is not None and (r[0] != 'many' or r[2] in changed)]
    with gzip.GzipFile('spec/nativize.json.gz', 'wb', mtime=0) as f:
        f.write(json.dumps(res, ensure_ascii=False, separators=(',', ':')).encode('utf-8', 'surrogatepass'))
    print(len(res), len(changed), os.path.getsize('spec/nativize.json.gz'))
