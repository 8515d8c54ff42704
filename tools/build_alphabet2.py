"""spec/alphabet2.json: characters of the scripts spec/alphabet.json has not.
Used to generate text only; not run by any check."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot, cases, call, core, sem, corpus

if __name__ == '__main__':
    T = boot.get()
    old = core.spec('alphabet.json')
    out = {}
    letters = {s: d['letters'] for s, d in sem.spec()['scripts'].items()}
    latn = sorted({k for l in letters.values() for k in l})
    dev = ''.join(chr(c) for c in list(range(0x901, 0x94e)) + [0x950, 0x951, 0x952, 0x953, 0x954] + list(range(0x958, 0x966)) + list(range(0x966, 0x970))
                  if c not in (0x904, 0x93a, 0x93b, 0x94f)) + '\u094d' * 6 + '\u0964\u0965\u093d'
    for s in cases.ALL:
        if s in core.spec('alphabet.json'):
            continue
        if s in ('Devanagari', 'SiddhamDevanagari', 'Ranjana'):
            a = dev
        elif s == 'Hiragana':
            a = ''.join(map(chr, range(0x3041, 0x3095))) + '\u30fc'
        elif s == 'Katakana':
            a = ''.join(map(chr, range(0x30a1, 0x30f8))) + '\u30fc'
        elif s in letters:
            a = ''.join(sorted({c for k in letters[s] for c in T.process('Latn', s, k, nativize=False)} |
                               {c for k in letters[s] for c in T.process('Latn', s, 'b' + k + 'b', nativize=False)}))
        elif s == 'Latn':
            a = ''.join(sorted({c for k in latn for c in k}))
        elif s in ('HebrewSBL', 'ISO259', 'ISO233', 'Inter'):
            src = {'HebrewSBL': 'Hebr', 'ISO259': 'Hebr', 'ISO233': 'Arab', 'Inter': 'Latn'}[s]
            w = ''.join(sorted({c for k in letters.get(src, latn) for c in T.process('Latn', src, k + 'b', nativize=False)}))
            a = ''.join(sorted(set(T.process(src, s, w, nativize=False)) | set(''.join(T.process(src, s, c, nativize=False) for c in w))))
        elif s == 'RomanLoC':
            a = ''.join(sorted(set(''.join(T.process(p, s, old[p], nativize=False) for p in ('Telugu', 'Tamil', 'Gujarati', 'Malayalam')))))
        else:
            raise SystemExit(s)
        if s == 'Ethi':
            a = ''.join(chr(c) for c in range(0x1200, 0x135b) if chr(c).isidentifier())
        if s == 'Inter':
            a = ''.join(c for c in a if not 0xe000 <= ord(c) < 0xf900)
        out[s] = a
        print(s, len(a), ascii(a)[:100])
    json.dump(out, open('spec/alphabet2.json', 'w', encoding='utf-8'), ensure_ascii=False, indent=0, sort_keys=True)
