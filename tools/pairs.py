"""Development aid: path independence and pair round trip over all pairs."""
import sys, os, collections, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import boot, call, core, lang
from vlib.lang import *
import multiprocessing as mp
SP = core.spec('indic.json')
N = int(os.environ.get('N', '200'))
def job(a):
    S, Tt = a
    rec = core.Rec()
    inv = Inv.of(SP[S]).meet(Inv.of(SP[Tt]))
    if not inv.usable(): return S, Tt, None, [], []
    ws = inv.words(random.Random(S + Tt + os.environ.get('X','')), N)
    if not ws: return S, Tt, None, [], []
    x1 = call.lines(rec, 'Devanagari', S, ws); x2 = call.lines(rec, 'Devanagari', Tt, ws)
    a = call.lines(rec, S, Tt, x1)
    if a is None: return S, Tt, 'CRASH', rec.viol, []
    b = call.lines(rec, Tt, S, a)
    if b is None: return S, Tt, 'CRASH', rec.viol, []
    bad3 = [(w, x, p, q) for w, x, p, q in zip(ws, x1, a, x2) if p != q]
    bad1 = [(w, x, p, q) for w, x, p, q in zip(ws, x1, a, b) if x != q]
    return S, Tt, len(ws), bad3, bad1
if __name__ == '__main__':
    boot.get()
    ss = [s for s in SP if s != 'Devanagari']
    with mp.Pool(8) as p:
        res = p.map(job, [(s, t) for s in ss for t in ss if s != t], chunksize=20)
    import pickle
    pickle.dump(res, open(os.environ.get('OUT','/tmp/x/pairs.pkl'), 'wb'))
    print(len(res), 'crash', sum(r[2] == 'CRASH' for r in res), 'none', sum(r[2] is None for r in res))
    print('path bad', sum(bool(r[3]) for r in res), 'rt bad', sum(bool(r[4]) for r in res))
