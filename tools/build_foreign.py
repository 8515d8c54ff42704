"""spec/foreign.json: which punctuation marks and ASCII characters a script
uses itself (as source / as target); everything else must pass through.
Input for audit; not run by any check."""
import sys, os, json, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, call, core, rules, foreign
import multiprocessing as mp


def job(a):
    s, t = a
    bad = set()
    for nat in (0, 1):
        for salt in range(3):
            rec = core.Rec()
            for ch, ctx, x, g, e in foreign.observe(rec, s, t, nat, ('build', salt), foreign.PUN + foreign.ASC, 1):
                if g != e:
                    bad.add(ch)
    return a, ''.join(sorted(bad))


if __name__ == '__main__':
    boot.get()
    ss = rules.covered()
    items = [('Devanagari', t) for t in ss] + [(t, 'Devanagari') for t in ss]
    with mp.Pool(8) as p:
        res = p.map(job, items, chunksize=4)
    out = {'source': {}, 'target': {}}
    for (s, t), b in res:
        if s == 'Devanagari':
            out['target'][t] = b
        else:
            out['source'][s] = b
    common = set(out['target']['Kannada']) & set(out['target']['Telugu']) & set(out['target']['Kharoshthi'])
    print('common as target', ascii(''.join(sorted(common))))
    json.dump(out, open('spec/foreign.json', 'w', encoding='utf-8'), ensure_ascii=False, indent=0, sort_keys=True)
