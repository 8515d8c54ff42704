"""Freeze the pairs outside the domain of path independence / pair round trip
(schemes that read or write a sound differently for that one partner), from
the sweep of tools/pairs.py given as argument. Development aid."""
import sys, os, json, pickle, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
from vlib.rules import LL, PX, latin
path, rt = set(), set()
for f in sys.argv[1:]:
    for s, t, n, p, q in pickle.load(open(f, 'rb')):
        if 'RomanLoC' in (s, t) or 'Inter' in (s, t) or n is None:
            continue
        if n == 'CRASH':
            path.add((s, t)); rt.add((s, t)); continue
        rx = [re.compile(PX[x]) for x in (s, t) if x in PX]
        if latin(s) and latin(t):
            rx.append(LL)
        ok = lambda w: not any(r.search(w) for r in rx)
        if any(ok(x[0]) for x in p): path.add((s, t))
        if any(ok(x[0]) for x in q): rt.add((s, t))
json.dump({'path': sorted(path), 'rt': sorted(rt)},
          open(os.path.join(core.HERE, 'spec', 'pairs.json'), 'w'), indent=0)
print(len(path), len(rt))
