"""spec/semitic.json: letters of the Semitic scripts that are written
distinctly, and sequences of them that are not."""
import json, os, random, sys, unicodedata
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, cases
T = boot.get()
D = json.load(open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'aksharamukha/json/gimeltra_data.json')))['ssub']['Latn']


def P(s, t, ws):
    return T.process(s, t, '\n'.join(ws), nativize=False).split('\n')


def rt(x, ws):
    return P(x, 'Latn', P('Latn', x, ws))


def vowel(k):
    return unicodedata.normalize('NFD', k)[0] in 'aeiou'


def job(x):
    keys = [k for k in D[x] if '\n' not in k and k.strip()]
    keys = [k for k, r in zip(keys, rt(x, keys)) if r == k and not unicodedata.combining(k[0])]
    # letters whose sequences are no other letters
    pairs = [(a, b) for a in keys for b in keys if not (vowel(a) and vowel(b))]
    bad = {a + b for (a, b), r in zip(pairs, rt(x, [a + b for a, b in pairs])) if r != a + b}
    n = len(bad)
    for rnd in range(120):
        rng = random.Random('%s %d' % (x, rnd))
        ws = []
        while len(ws) < 3000:
            l = [rng.choice(keys) for _ in range(rng.randint(2, 6))]
            w = ''.join(k for i, k in enumerate(l) if not (i and vowel(k) and vowel(l[i - 1])))
            if sum(map(vowel, l)) and any(vowel(unicodedata.normalize('NFC', a)) and vowel(unicodedata.normalize('NFC', b)) for a, b in zip(w, w[1:])):
                continue
            if not any(b in w for b in bad):
                ws.append(w)
        fails = [w for w, r in zip(ws, rt(x, ws)) if r != w]
        if not fails:
            if rnd > 25:
                break
            continue
        for w in fails:         # the shortest part that still fails
            cur = w
            while True:
                parts = [p for p in (cur[1:], cur[:-1]) if len(p) > 1 and not unicodedata.combining(p[0]) and rt(x, [p]) != [p]]
                if not parts:
                    break
                cur = parts[0]
            bad.add(cur)
    return x, {'letters': keys, 'never': sorted(bad)}, n


if __name__ == '__main__':
    S = [s for s in cases.SC['semitic'] if s != 'Latn']
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        res = list(ex.map(job, S))
    print([(x, len(d['letters']), n, len(d['never'])) for x, d, n in res])
    json.dump({x: d for x, d, n in res}, open('spec/semitic.json', 'w'), ensure_ascii=False, indent=0)
