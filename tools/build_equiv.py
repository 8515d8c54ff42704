"""Equivalent spellings in each source script -> spec/equiv.json
(development only; every entry confirmed in many contexts, then reviewed)."""
import itertools, json, os, random, sys, unicodedata as U
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core, hostile, lang, letters, rules
T = boot.get()
INV = rules.inventories()


def P(s, t, ws):
    r = T.process(s, t, '\n'.join(ws), nativize=False).split('\n')
    if len(r) != len(ws):
        return [T.process(s, t, w, nativize=False) for w in ws]
    return r


def cands(S, spelled):
    """Strings that may stand for a letter."""
    own = hostile.OWN.get(S, '')
    out = set()
    for x in spelled:
        for f in ('NFC', 'NFD', 'NFKC', 'NFKD'):
            out.add(U.normalize(f, x))
        out |= {x.upper(), x.lower(), x.capitalize(), x.title()}
    latin = rules.latin(S)
    if latin:
        A = sorted(set(''.join(spelled)) | set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ~^.\'"_`-&*'))
        out |= set(A) | {a + b for a in A for b in A}
        B = sorted(set(c for c in ''.join(spelled) if c.isascii()) | set('hHxXyYnNrRiIlLuU~^'))
        out |= {a + b + c for a in B for b in B for c in B}
    else:
        blocks = {ord(c) >> 7 for c in own if ord(c) > 0x7f}
        A = [chr((b << 7) + i) for b in blocks for i in range(128)]
        A = [a for a in A if U.category(a)[0] in 'LMNS']
        Z = A + ['\u200c', '\u200d']
        out |= set(A) | {a + b for a in A for b in Z}
        V = [a for a in own if U.category(a) in ('Mn', 'Mc')] + ['\u200d', '\u200c']
        C = [a for a in own if U.category(a)[0] == 'L']
        out |= {a + b + c for a in C for b in V for c in V}
    return sorted(out)


def find(S):
    inv = INV[S]
    rng = random.Random('equiv' + S)
    ls = letters.items(inv)
    sp = P('Devanagari', S, ls)
    k = inv.cons[0]
    K = P('Devanagari', S, [k])[0]
    canon = {}
    for l, x in zip(ls, sp):
        canon.setdefault(x, l)
    # words in which the letters stand
    ws = P('Devanagari', S, inv.words(rng, 4000, 5))
    ds = P(S, 'Devanagari', ws)
    read = dict(zip(canon, P(S, 'Devanagari', list(canon))))
    back = {}
    for x, d in read.items():
        back.setdefault(d, []).append(x)
    # pieces: what may be exchanged; a letter or its sign after a consonant
    pieces = {}
    for x in canon:
        pieces[x] = x
        if x.startswith(K) and len(x) > len(K):
            pieces[x[len(K):]] = x[len(K):]
    cs = [c for c in cands(S, list(pieces)) if c and c not in canon]
    out = {}
    # exchange in isolation
    ps = list(pieces)
    rp = dict(zip(ps, P(S, 'Devanagari', ps)))
    rk = dict(zip(ps, P(S, 'Devanagari', [K + p + K for p in ps])))
    bysound = {}
    for p in ps:
        bysound.setdefault((rp[p], rk[p]), []).append(p)
    rc = P(S, 'Devanagari', cs)
    rkc = P(S, 'Devanagari', [K + c + K for c in cs])
    hits = []
    for c, a, b in zip(cs, rc, rkc):
        for p in bysound.get((a, b), ()):
            if p != c:
                hits.append((c, p))
                break
    for c, p in hits:
        xs = [(w, d) for w, d in zip(ws, ds) if p in w][:250]
        if len(xs) < 12:
            continue
        ys = [w.replace(p, c) for w, d in xs]
        r = P(S, 'Devanagari', ys)
        bad = sum(d != g for (w, d), g in zip(xs, r))
        out[c] = (p, len(xs), bad)
    return S, out


if __name__ == '__main__':
    names = sys.argv[1:] or [s for s in INV if s != 'Devanagari'] 
    res = {}
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for S, o in ex.map(find, names):
            res[S] = o
    json.dump(res, open('/tmp/x/equiv.json', 'w'), ensure_ascii=False)
    for S, o in res.items():
        good = {c: v[0] for c, v in o.items() if not v[2]}
        part = {c: v for c, v in o.items() if v[2]}
        print(S, len(good), len(part), ascii(list(good.items())[:6])[:150], ascii(list(part.items())[:2])[:100])
