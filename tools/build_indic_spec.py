"""Regenerates spec/indic.json (inventories). NOT run by any check: the result
is committed and audited by hand; see DESIGN.md."""
import sys, os, json, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import boot, call, core, lang
from vlib.lang import *
from tools.excl import EXCL, DROP, SKIP
import multiprocessing as mp


def inventory(S):
    rec = core.Rec()
    ws = [spell([c + v]) for c in CONS for v in VS] + V + [spell([c + VIR]) for c in CONS] + \
        ['क' + a for a in AY] + DIG + ['ऽ', '।', '॥', 'ॐ']
    x = call.lines(rec, 'Devanagari', S, ws)
    y = call.lines(rec, S, 'Devanagari', x)
    ok = {w for w, b in zip(ws, y) if w == b}
    cnt = collections.Counter(a for w, a in zip(ws, x) if w in ok)
    ok = {w for w, a in zip(ws, x) if w in ok and cnt[a] == 1 and a != w}
    drop = DROP.get(S, '').split()
    cons = [c for c in CONS if c in ok and c not in drop]
    vows = [i for i in range(18) if V[i] in ok and V[i] not in drop and
            sum((c + VS[i]) in ok for c in cons) > len(cons) * .7]
    if cons and 0 not in vows and S not in ('Hiragana', 'Katakana'):
        print('no inherent vowel', S)
    nv = sum(spell([c + VIR]) in ok for c in cons)
    vir = bool(cons) and nv > .9 * len(cons)
    bad_vir = [c for c in cons if vir and spell([c + VIR]) not in ok]
    if bad_vir: print(S, 'vir bad', bad_vir)
    ay = [a for a in AY if 'क' + a in ok and a not in drop]
    misc = ''.join(w for w in DIG + ['ऽ', '।', '॥', 'ॐ'] if w in ok)
    cvb = [c + VS[i] for c in cons for i in vows if c + VS[i] not in ok]
    return S, dict(cons=cons, vows=vows, vir=vir, ay=''.join(ay), misc=misc, cv_bad=cvb,
                   excl=EXCL.get(S, []))


if __name__ == '__main__':
    boot.get()
    from aksharamukha import GeneralMap as GM
    ss = sorted(s for s in GM.IndicScripts + GM.LatinScripts + ['Hiragana', 'Katakana'] if s not in SKIP)
    with mp.Pool(8) as p:
        res = p.map(inventory, ss, chunksize=1)
    out = {}
    for S, d in res:
        if not d['cons'] or not d['vows']:
            print('dropped', S); continue
        d['kind'] = 'indic' if S in GM.IndicScripts else 'other'
        out[S] = d
    d = dict(cons=CONS, vows=list(range(18)), vir=True, ay=''.join(AY), misc=''.join(DIG) + 'ऽ।॥ॐ', cv_bad=[], excl=EXCL['Devanagari'], kind='indic')
    out['Devanagari'] = d
    for d in out.values(): d['excl'] = sorted(set(d['excl']) | set(EXCL['Devanagari']))
    out = dict(sorted(out.items()))
    with open(os.path.join(core.HERE, 'spec', 'indic.json'), 'w') as f:
        json.dump(out, f, ensure_ascii=False, indent=0, separators=(',', ':'))
    print(len(out))
