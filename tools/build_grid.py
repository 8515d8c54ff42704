"""spec/grid.json.gz: what every pair of scripts makes of the same lines of text,
as digests, and the lines themselves. Not run by any check."""
import gzip
import json
import multiprocessing as mp
import os
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, call, cases, core, corpus, grid, hostile, lang, rules, sem, signs, trig

HUB = 'Devanagari'
N = (grid.BLOCKS - len(grid.RULES)) * grid.LINES


def lines(s):
    """Lines of text in script s: a third words of the corpus, a third random words
    of its inventory with signs, a third random sequences of its own letters."""
    T = boot.get()
    rng = random.Random('grid ' + s)
    out = []
    inv = rules.inventories().get(s) if s != 'RomanLoC' else rules.inventories()['ISO']
    semitic = s in sem.spec()['scripts']
    n = 0
    while len(out) < N:
        n += 1
        k = n % 3
        if k == 0 or s in ('Hiragana', 'Katakana', 'Latn', 'Inter'):
            a = hostile.OWN.get(s) or 'abc'
            x = ' '.join(''.join(rng.choice(a) for _ in range(rng.randint(1, 7))) for _ in range(rng.randint(1, 2)))
        elif semitic:
            x = T.process('Latn', s, ' '.join(sem.of(s).words(rng, rng.randint(1, 2))), nativize=False)
        elif inv is None or k == 1:
            x = T.process(HUB, s if s != 'RomanLoC' else 'ISO', rng.choice(corpus.words()), nativize=False)
        else:
            kind = rng.choice(signs.KINDS + ('word', 'word', 'word'))
            if kind == 'word':
                x = ' '.join(inv.words(rng, 2))
            else:
                t = signs.texts(rng, inv, kind, 1)
                x = t[0][0] if t else lang.V[0]
            x = T.process(HUB, s if s != 'RomanLoC' else 'ISO', x, nativize=False)
        x = x.replace('\n', ' ').replace('#', '')
        if x.strip() and '\r' not in x and len(x) < 120:
            out.append(x)
    return s, out


def rules_lines(s):
    """Lines of two words each that reach rules, reading or writing s."""
    rng = random.Random('grid rules ' + s)
    ws = {c[2] for c in trig.all_() if c[0] == s} | {c[4] for c in trig.all_() if c[1] == s}
    ws = sorted(w.replace('#', '') for w in ws if 0 < len(w) <= 40 and not set(w) & set('\r\n') and w.strip())
    rng.shuffle(ws)
    ws = ws or [s]
    return s, [ws[i % len(ws)] + ' ' + ws[(i * 7 + 1) % len(ws)] if i * 2 >= len(ws) else ws[2 * i] + ' ' + ws[(2 * i + 1) % len(ws)]
               for i in range(len(grid.RULES) * grid.LINES)]


def row(s):
    rec = core.Rec()
    return s, {t: grid.observe(rec, s, t, range(grid.BLOCKS)) for t in grid.targets(s)}, rec.viol


if __name__ == '__main__':
    boot.get()
    path = 'spec/grid.json.gz'

    def dump(d):
        with gzip.GzipFile(path, 'wb', mtime=0) as f:
            f.write(json.dumps(d, ensure_ascii=False, sort_keys=True).encode('utf-8', 'surrogatepass'))
    if not os.environ.get('KEEP_LINES'):
        with mp.Pool(8) as p:
            out = {'lines': dict(p.map(lines, cases.ALL, chunksize=1)), 'rows': {}}
    else:
        out = dict(grid.table())
        for s in cases.ALL:
            out['lines'][s] = out['lines'][s][:N] + rules_lines(s)[1]
    grid.table.cache_clear()
    grid.table = lambda: out
    with mp.Pool(8) as p:
        for s, r, v in p.imap_unordered(row, sorted(cases.ALL, key=lambda s: s not in grid.KANA), chunksize=1):
            out['rows'][s] = r
            if v:
                print(s, v[:2])
    dump(out)
