"""Reference effects of every option (spec/effects.json.gz), and which scripts
each option leaves alone. Regenerate only to extend; audit the difference."""
import gzip, json, os, random, sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, cases, core, corpus, effects
T = boot.get()
FEW, SOME = 15, 12


def semitic_words():
    rng = random.Random('semitic')
    C = 'ʾ b g j d h w z ḥ ṭ y k l m n s ʿ f ṣ q r š t ḍ ḏ ḫ ġ ṯ ẓ p č ž v ḵ'.split()
    V = 'a ā i ī u ū e ē o ō'.split()
    out = list(C) + [c + v for c in C for v in V] + ['ʾ' + v + c for c in C for v in V[:6]]
    out += [c + v + c + c + w for c in C for v, w in (('a', 'a'), ('i', 'u'), ('u', 'ī'))]
    for _ in range(500):
        out.append(''.join(rng.choice(C) + rng.choice(V + ['', '']) for _ in range(rng.randint(2, 5))))
    for _ in range(40):
        out.append(' '.join(''.join(rng.choice(C) + rng.choice(V + ['']) for _ in range(rng.randint(1, 4))) for _ in range(3)))
    return list(dict.fromkeys(out))


def source_lines(s):
    r = random.Random('pre ' + s)
    tx = '\n'.join(corpus.words() if s not in SEM else semitic_words())
    b = T.process('Devanagari' if s not in SEM else 'Latn', s, tx, nativize=False).split('\n')
    lines = [x for x in dict.fromkeys(b) if '\r' not in x]
    r.shuffle(lines)
    lines = lines[:450]
    if cases.hostile.OWN.get(s):
        lines += [cases.words(r, s, r.randint(1, 2)) for _ in range(200)]
    return [x for x in lines if '\n' not in x]


SEM = set(cases.SC['semitic'])


def diff(s, t, lines, kind, skip=()):
    base = effects.run(s, t, lines, kind, None)
    out = {}
    for o in cases.OPT[kind]:
        if o in effects.SKIP:
            continue
        r = effects.run(s, t, lines, kind, o)
        if r != base:
            assert isinstance(r, str), (s, t, o, r)
            l, b = r.split('\n'), base.split('\n')
            out[o] = {i: x for i, (x, y) in enumerate(zip(l, b)) if x != y} if len(l) == len(b) else r
    return out


def job(a):
    kind, s, t, lines = a
    return kind, s, t, diff(s, t, lines, kind)


if __name__ == '__main__':
    dev, sem = corpus.words(), semitic_words()
    src = {s: source_lines(s) for s in cases.ALL if s != 'RomanLoC'}
    jobs = [('post', 'Devanagari', t, dev) for t in cases.ALL] + [('post', 'Latn', t, sem) for t in cases.ALL if t in SEM and t != 'Latn']
    jobs += [('pre', s, 'Devanagari' if s != 'Devanagari' else 'IAST', L) for s, L in src.items()]
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        res = list(ex.map(job, jobs))
    by = {}
    for kind, s, t, out in res:
        for o, e in out.items():
            by.setdefault((kind, o, s if kind == 'post' else ''), []).append((s, t, e))
    ent, touched = [], {}
    r = random.Random('effects')
    for (kind, o, _), l in sorted(by.items()):
        touched.setdefault(kind, {}).setdefault(o, []).extend([s, t] for s, t, e in l)
        if len(l) > FEW:
            own = [x for x in l if x[1 if kind == 'post' else 0].lower() in o.lower()]
            rest = [x for x in l if x not in own]
            l = own + r.sample(rest, min(len(rest), SOME))
        for s, t, e in l:
            ent.append([kind, o, s, t, e])
    d = {'dev': dev, 'sem': sem, 'src': src, 'touched': touched, 'entries': ent}
    with gzip.GzipFile('spec/effects.json.gz', 'wb', mtime=0) as f:
        f.write(json.dumps(d, ensure_ascii=False, separators=(',', ':')).encode('utf-8', 'surrogatepass'))
    print(len(ent), sum(len(e[4]) for e in ent), os.path.getsize('spec/effects.json.gz'))
