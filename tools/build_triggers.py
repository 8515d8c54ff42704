"""spec/triggers.json.gz out of the findings of triggers.py: texts that reach the rules of the library,
what they convert to, and which laws they obey. Not run by any check.
usage: build_triggers.py PER_RULE FOUND.json ..."""
import collections, gzip, json, multiprocessing as mp, os, random, sys, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, call, cases, core, rules, trig


def look(c):
    s, t, x, kw = c
    rec = core.Rec()
    y = trig.one(rec, s, t, x, kw)
    if y is None or len(y) > 400 or any(0xd800 <= ord(a) < 0xe000 for a in y):
        return None
    laws = ''.join(k for k, f in trig.LAWS.items() if trig.applies(k, s, t, kw) and f(rec, s, t, x, kw, y) is None)
    words = []
    if s in trig.INDIC | trig.LATIN and t in trig.INDIC | trig.LATIN:
        for w in dict.fromkeys((call.tr(rec, s, 'Devanagari', x), call.tr(rec, t, 'Devanagari', y))):
            if not w or len(w) > 60 or not any('\u0900' <= a < '\u0980' for a in w) or any(0xd800 <= ord(a) < 0xe000 for a in w):
                continue
            for z in dict.fromkeys((s, t)):
                if z != 'Devanagari' and trig.hubback(rec, z, w) is None:
                    words.append(['r', z, '', w])
            if 'Devanagari' not in (s, t) and s != t and trig.path(rec, s, t, w) is None:
                words.append(['p', s, t, w])
    more = [(s, t, x, {'nativize': n}) for n in (False, True)]
    if s != 'Devanagari' and t != 'Devanagari' and t in trig.INDIC | trig.LATIN:
        w = call.tr(rec, t, 'Devanagari', y)
        if w and w.strip() and len(w) <= 60 and not any(0xd800 <= ord(a) < 0xe000 for a in w):
            more += [('Devanagari', t, w, {'nativize': True})]
    return [s, t, x, kw, y, laws, words, more]


if __name__ == '__main__':
    per, files = int(sys.argv[1]), sys.argv[2:]
    boot.get()
    cs = []
    for f in files:
        cs += json.load(open(f))['keep']
    random.Random(0).shuffle(cs)
    cs.sort(key=lambda c: -len(c[4]))
    n = collections.Counter()
    out = []
    seen = set()
    for s, t, x, kw, ks in cs:
        ks = [tuple(k) for k in ks]
        key = (s, t, x, json.dumps(kw))
        if key in seen or all(n[k] >= per for k in ks) or (s, t) == ('Tamil', 'IPA') or s not in cases.ALL or t not in cases.ALL:
            continue
        seen.add(key)
        for k in ks:
            n[k] += 1
        out.append((s, t, x, kw))
    print(len(cs), 'found', len(n), 'rules', len(out), 'cases')
    with mp.Pool(8) as p:
        a = p.map(look, out, 40)
        more = [m for c in a if c for m in c[7]]
        for m in more:
            key = (m[0], m[1], m[2], json.dumps(m[3]))
            if key not in seen:
                seen.add(key)
                out.append(m)
        print(len(out), 'with variants')
        a += p.map(look, out[len(a):], 40)
    with mp.Pool(8) as p:                  # again, in other processes and another order
        b = p.map(look, out[::-1], 40)[::-1]
    keep = sorted((x for x, y in zip(a, b) if x and x == y), key=lambda c: (c[0], c[1], c[2], json.dumps(c[3])))
    print(len(keep), 'kept', collections.Counter(l for c in keep for l in c[5]))
    words = sorted({tuple(w) for c in keep for w in c[6]})
    print(collections.Counter(w[0] for w in words))
    kws = sorted({json.dumps(c[3], sort_keys=True) for c in keep})
    no = {k: i for i, k in enumerate(kws)}
    d = {'options': [json.loads(k) for k in kws], 'cases': [[c[0], c[1], c[2], no[json.dumps(c[3], sort_keys=True)], c[4], c[5]] for c in keep], 'rules': len(n), 'words': words}
    with open('spec/triggers.json.gz', 'wb') as f:
        with gzip.GzipFile(fileobj=f, mode='wb', mtime=0, filename='') as g:
            g.write(json.dumps(d, ensure_ascii=False).encode())
