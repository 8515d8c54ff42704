"""Freeze the letter correspondence (spec/letters.json) from the real code.
Every entry where Unicode names both letters alike is cross-checked, the
others were read over by eye. Development aid, not run by any check."""
import sys, os, json, collections, unicodedata
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core, lang, rules, letters
boot.get()
out = {}
tot = collections.Counter()
for S in rules.covered():
    e = letters.observe(core.Rec(), S)
    out[S] = e
    tot['letters'] += len(e['letters']); tot['exc'] += len(e['exc'])
    # Unicode-name audit
    for h, o in e['letters'].items():
        if len(h) == 1 and len(o) == 1:
            a, b = unicodedata.name(h, '?').split(), unicodedata.name(o, '?').split()
            if a[-2:] == b[-2:]:
                tot['name agrees'] += 1
            elif a[-2] == b[-2] if len(a) > 1 and len(b) > 1 else False:
                tot['name differs'] += 1
                if '-v' in sys.argv: print(S, h, o, ' '.join(a[1:]), '|', ' '.join(b[1:]))
json.dump(out, open(os.path.join(core.HERE, 'spec', 'letters.json'), 'w'), ensure_ascii=False, indent=0)
print(tot, os.path.getsize(os.path.join(core.HERE, 'spec', 'letters.json')))
print(sorted(((len(v['exc']), s) for s, v in out.items()), reverse=True)[:30])
