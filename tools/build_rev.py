"""Freeze what every letter and vowel sign of a script's own Unicode blocks is
read as in Devanagari and IAST (spec/reverse.json). Development aid."""
import sys, os, json, unicodedata, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, core, call, rules
boot.get()
LET = core.spec('letters.json')
out = {}
deva = lambda s: s and all('\u0900' <= c <= '\u097f' or c in '\u200c\u200d' for c in s)
for S in rules.covered() + ['Devanagari']:
    if rules.latin(S) and S not in ('Avestan', 'Mro', 'Wancho', 'Santali', 'SoraSompeng', 'WarangCiti', 'HanifiRohingya', 'TolongSiki', 'Mongolian'):
        continue
    if S == 'Devanagari':
        base, k, blocks = 'क', 'क', {0x900, 0x901, 0x902, 0x903, 0x904, 0x905, 0x906, 0x907}
        blocks = {0x900 >> 4, 0x910 >> 4, 0x920 >> 4, 0x930 >> 4, 0x940 >> 4, 0x950 >> 4, 0x960 >> 4, 0x970 >> 4}
    else:
        L = LET[S]['letters']
        k = L.get('क') or next(iter(L.values()))
        chars = [c for v in list(L.values()) + list(LET[S]['exc'].values()) for c in v if unicodedata.category(c) in ('Lo', 'Mn', 'Mc', 'Lu', 'Ll', 'Lm') and ord(c) > 0x590]
        if not chars: continue
        blocks = {ord(c) >> 4 for c in chars}
        n = collections.Counter(unicodedata.name(c, '?').split()[0] for c in chars).most_common(1)[0][0]
        blocks = {b for b in blocks if any(unicodedata.name(chr(b * 16 + i), '?').split()[0] == n for i in range(16))}
    rec = core.Rec()
    e = {}
    for b in sorted(blocks):
        for i in range(16):
            c = chr(b * 16 + i)
            cat = unicodedata.category(c)
            if cat in ('Lo', 'Lu', 'Ll'): w = c
            elif cat in ('Mn', 'Mc'): w = k + c
            elif cat == 'Nd': w = c
            else: continue
            d = call.tr(rec, S, 'Devanagari', w) if S != 'Devanagari' else ''
            r = call.tr(rec, S, 'IAST', w)
            if (S == 'Devanagari' or (deva(d) and d != w)) and r and all(ord(x) < 0x370 or 0x1e00 <= ord(x) < 0x1f00 for x in r):
                e[w] = [d, r]
    out[S] = e
json.dump(out, open(os.path.join(core.HERE, 'spec', 'reverse.json'), 'w'), ensure_ascii=False, indent=0, separators=(',', ':'))
print(sum(len(e) for e in out.values()), len(out), os.path.getsize(os.path.join(core.HERE, 'spec', 'reverse.json')))
