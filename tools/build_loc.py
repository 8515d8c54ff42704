"""Build spec/loc.json.gz: the tables of the Library of Congress romanizations,
by partner script, and digests of their results on a systematic word list."""
import gzip
import json
import os
import sys
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core, nativ
boot.get()
from props import c19


def plan(s):
    from aksharamukha import GeneralMap as G
    x = 'RomanLoC'
    s = s + 'LoC' if s in G.LoCSrcMap else 'ThamLoC' if 'Tham' in s else s
    r = s + x if s in G.LoCTgtMap else 'ISO'
    if s in G.LocPostPre:
        w = [s, r, [r + 'Target'] + (['SchwaFinalKhmerLoC'] if s == 'KhmerLoC' else []), [r + 'Target'], True]
        b = [r, s, [r + 'Source'], [r + 'Source'], True]
    else:
        w = [s, r, G.LoCTgtPreOptions.get(s, []), G.LoCTgtPostOptions.get(s, []), False]
        b = [r, s, G.LoCSrcPreOptions.get(s, []), G.LoCSrcPostOptions.get(s, []), False]
    return {'write': w, 'read': b}


def dig(e):
    rec = core.Rec()
    out = c19.blocks(rec, *e)
    assert not rec.viol, rec.viol[:1]
    return [e, [nativ.digest(y) for x, y in out]]


if __name__ == '__main__':
    from aksharamukha import GeneralMap as G
    loc = sorted(set(G.LoCScripts))
    J = [(d, s) for s in loc + ['iso:' + k for k in sorted(G.semiticISO)] for d in ('write', 'read') if not (s == 'iso:PersianDMG' and d == 'read')]
    with ProcessPoolExecutor(8) as ex:
        r = list(ex.map(dig, J))
    o = {'plans': {s: plan(s) for s in loc}, 'iso': dict(G.semiticISO), 'digests': r}
    with gzip.GzipFile(os.path.join(core.HERE, 'spec', 'loc.json.gz'), 'wb', mtime=0) as f:
        f.write(json.dumps(o, ensure_ascii=False).encode())
    print(len(r), sum(len(x[1]) for x in r))
