"""Reduces /tmp/x/equiv.json (tools/build_equiv.py) to the smallest exchanges,
confirms each in fresh words and for other targets -> spec/equiv.json."""
import json, os, random, sys, unicodedata as U
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core, hostile, lang, letters, rules
from tools.build_equiv import P, INV
R = json.load(open('/tmp/x/equiv.json'))
TG = ['Devanagari', 'IAST', 'Tamil', 'Telugu', 'Thai', 'Tibetan', 'Itrans']


def blk(S):
    own = hostile.OWN.get(S, '')
    return {ord(c) >> 7 for c in own if ord(c) > 0x7f}


def reduce(S):
    latin = rules.latin(S)
    b = blk(S)
    low = {0, 1} if not latin else set()
    g = {}
    zw = set()
    case = {}
    for c, (p, n, bad) in R[S].items():
        if bad:
            continue
        z = c.rstrip('\u200c\u200d')
        if not latin and z != c:
            if z == p and len(c) == len(p) + 1:
                zw.add(p)
            continue
        if '\u200c' in c or '\u200d' in c and not latin:
            continue
        if not latin and any(ord(x) >> 7 not in b and x not in p for x in c):
            continue
        if not latin and any((x in '\u02bd\u02bc\u02d8\u00b7\u00b9\u00b2\u00b3\u2074\ua789\ua78a' or 0x900 <= ord(x) < 0x980 and S not in ('Devanagari',) and 0x12 not in b) and x not in p for x in c):
            continue
        if c.lower() == p.lower():
            case[c] = p
            continue
        g[c] = p
    keep = {}
    for c in sorted(g, key=lambda c: (len(c), c)):
        p = g[c]
        # follows from a smaller one?
        der = False
        for a, q in keep.items():
            if a in c and (c.replace(a, q) == p or g.get(c.replace(a, q)) == p):
                der = True
                break
        if not der and any(len(k) < len(c) and (c.startswith(k) or c.endswith(k)) and c.replace(k, case[k]) in (p,) for k in case):
            der = True
        if not der:
            keep[c] = p
    return S, keep, sorted(zw), case


def confirm(S):
    _, keep, zw, case = reduce(S)
    inv = INV[S]
    good = {}
    for seed in range(2):
        ws = P('Devanagari', S, inv.words(random.Random('conf%s%d' % (S, seed)), 5000, 5))
        ref = {t: P(S, t, ws) for t in TG if t != S}
        idx = {}
        for c, p in keep.items():
            ii = [i for i, w in enumerate(ws) if p in w][:400]
            bad = {}
            for t in ref:
                r = P(S, t, [ws[i].replace(p, c) for i in ii])
                k = sum(r[j] != ref[t][i] for j, i in enumerate(ii))
                if k:
                    bad[t] = k
            good.setdefault(c, []).append((len(ii), bad))
    # whole-text capitals
    cas = None
    if case:
        cas = {}
        for f in ('upper', 'title', 'capitalize'):
            ys = [getattr(w, f)() for w in ws]
            r = P(S, 'Devanagari', ys)
            cas[f] = sum(a != b for a, b in zip(r, P(S, 'Devanagari', ws)))
    # joiners after any letter
    zbad = {}
    for z in '\u200c\u200d':
        for p in zw:
            ii = [i for i, w in enumerate(ws) if p in w][:60]
            for t in ('Devanagari', 'IAST'):
                if t == S:
                    continue
                r = P(S, t, [ws[i].replace(p, p + z) for i in ii])
                k = sum(r[j] != ref[t][i] for j, i in enumerate(ii))
                if k:
                    zbad[p + z] = k
    return S, {c: keep[c] for c, v in good.items() if all(not b for n, b in v)}, {c: (keep[c], v) for c, v in good.items() if any(b for n, b in v)}, [p for p in zw if p + '\u200c' not in zbad and p + '\u200d' not in zbad], cas


if __name__ == '__main__':
    res = {}
    with ProcessPoolExecutor(8, mp_context=mp.get_context('fork')) as ex:
        for S, good, bad, zw, cas in ex.map(confirm, list(R)):
            res[S] = {'same': good, 'joiner': zw, 'case': cas}
            print(S, len(good), len(bad), len(zw), cas, ascii(list(good.items()))[:1200], '###', ascii(list(bad.items()))[:150])
    json.dump(res, open('/tmp/x/equiv2.json', 'w'), ensure_ascii=False, indent=0, sort_keys=True)
