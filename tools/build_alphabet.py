"""spec/alphabet.json: the characters each script is written with (as target,
for text of the common inventory). Input for audit; not run by any check."""
import sys, os, json, collections, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, call, core, rules, lang, laws
import multiprocessing as mp


def job(t):
    inv = rules.inventories()
    rec = core.Rec()
    A = set()
    L = core.spec('letters.json')[t]
    for v in L['letters'].values():
        A |= set(v)
    ws = laws.workload(core.rng('alpha', t), inv[t], 600)
    for nat in (0, 1):
        for v in call.lines(rec, 'Devanagari', t, ws + list(L['letters']), nativize=bool(nat)) or []:
            A |= set(v)
    extra = {}
    for s in rules.covered():
        m = rules.pair_inv(s, t)
        if s == t or not m.usable():
            continue
        hub = m.words(core.rng('alpha', s, t), 60) + lang.DIG
        xs = call.lines(rec, 'Devanagari', s, hub)
        for nat in (0, 1):
            for x, v in zip(xs, call.lines(rec, s, t, xs, nativize=bool(nat)) or []):
                for ch in set(v) - A:
                    extra.setdefault(ch, (s, nat, x, v))
    return t, ''.join(sorted(A)), extra


if __name__ == '__main__':
    boot.get()
    with mp.Pool(8) as p:
        res = p.map(job, rules.covered(), chunksize=2)
    json.dump({t: a for t, a, e in res}, open('spec/alphabet.json', 'w', encoding='utf-8'), ensure_ascii=False, indent=0, sort_keys=True)
    import pickle
    pickle.dump(res, open('/tmp/x/alpha.pkl', 'wb'))
