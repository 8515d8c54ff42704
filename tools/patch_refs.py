"""Record anew the entries of effects.json.gz and nativize.json.gz for the scripts named
(after a repair). Not run by any check. usage: patch_refs.py SCRIPT..."""
import gzip, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, effects, nativ
T = boot.get()
which = set(sys.argv[1:])
d = effects.table()
n = 0
base = {}
for ent in d['entries']:
    kind, o, s, t, e = ent
    if not which & {s, t}:
        continue
    lines = d['src'][s] if kind == 'pre' else d['sem'] if s == 'Latn' and t != 'Latn' else d['dev']
    k = (kind, s, t)
    if k not in base:
        base[k] = effects.run(s, t, lines, kind, None)
    r = effects.run(s, t, lines, kind, o)
    l, b = r.split('\n'), base[k].split('\n')
    new = {str(i): x for i, (x, y) in enumerate(zip(l, b)) if x != y} if len(l) == len(b) else r
    if new != e:
        n += 1
        print(kind, o, s, t, type(e).__name__, len(e), '->', len(new))
        ent[4] = new
with gzip.GzipFile('spec/effects.json.gz', 'wb', mtime=0) as f:
    f.write(json.dumps(d, ensure_ascii=False, separators=(',', ':')).encode('utf-8', 'surrogatepass'))
print(n)
m = 0
tb = nativ.table()
for ent in tb:
    w, s, t, e = ent
    if w != 'many' or not which & {s, t}:
        continue
    l = nativ.many()
    y = T.process(s, t, '\n'.join(l), nativize=True).split('\n')
    new = [nativ.digest(y[i:i + nativ.BLOCK]) for i in range(0, len(l), nativ.BLOCK)]
    if new != e:
        m += 1
        print(w, s, t, sum(a != b for a, b in zip(new, e)), 'blocks')
        ent[3] = new
with gzip.GzipFile('spec/nativize.json.gz', 'wb', mtime=0) as f:
    f.write(json.dumps(tb, ensure_ascii=False, separators=(',', ':')).encode('utf-8', 'surrogatepass'))
print(m)
