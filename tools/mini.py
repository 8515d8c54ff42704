"""Development aid: minimised round-trip failures per script."""
import sys, os, json, collections, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import boot, call, core, lang
from vlib.lang import *
import multiprocessing as mp
N = int(os.environ.get('N', '8000'))
SP = core.spec('indic.json')
def job(S):
    rec = core.Rec()
    inv = Inv.of(SP[S])
    rng = random.Random(S + os.environ.get('X', 'x'))
    tk = []
    while len(tk) < N:
        t = inv.tokens(rng)
        if inv.allows(spell(t)): tk.append(t)
    tk += [[w] for w in aksharas(inv)]
    tk += [[w[:-1] + '', ] if 0 else [w] for w in conjuncts(inv)]
    ws = [spell(t) for t in tk]
    y = call.lines(rec, S, 'Devanagari', call.lines(rec, 'Devanagari', S, ws))
    bad = [t for t, w, b in zip(tk, ws, y) if w != b]
    rt = lambda w: call.tr(rec, S, 'Devanagari', call.tr(rec, 'Devanagari', S, w))
    mins = collections.Counter()
    for t in bad[:80]:
        ch = True
        while ch:
            ch = False
            for i in range(len(t)):
                u = t[:i] + t[i + 1:]
                if not u or u[0] in AY: continue
                if any((a in AY and b in AY) or (a.endswith(VIR) and (b in AY or b in V)) for a, b in zip(u, u[1:])): continue
                if not inv.allows(spell(u)): continue
                if rt(spell(u)) != spell(u): t = u; ch = True; break
            if ch: continue
            for i in range(len(t)):
                if t[i][-1:] in VS[1:]:
                    u = list(t); u[i] = u[i][:-1]
                    if inv.allows(spell(u)) and rt(spell(u)) != spell(u): t = u; ch = True; break
        w = spell(t)
        mins[w + ' > ' + call.tr(rec, 'Devanagari', S, w) + ' > ' + rt(w)] += 1
    return S, len(bad), len(tk), mins.most_common(int(os.environ.get("K","6")))
if __name__ == '__main__':
    boot.get()
    with mp.Pool(8) as p:
        res = p.map(job, sys.argv[1:] or [s for s in SP if s != 'Devanagari'], chunksize=1)
    for S, b, n, m in res:
        if b: print(S, b, '/', n, *["| "+k for k, c in m])
    print(sum(1 for r in res if not r[1]), 'clean')
