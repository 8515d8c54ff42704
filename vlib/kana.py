"""An independent reading of kana: moras to ISO 15919, as Hepburn has them."""
import re

VOW = 'aiueo'
ROWS = {'': 'あいうえお', 'k': 'かきくけこ', 'g': 'がぎぐげご', 's': 'さしすせそ', 'z': 'ざじずぜぞ', 't': 'たちつてと', 'd': 'だぢづでど',
        'n': 'なにぬねの', 'h': 'はひふへほ', 'b': 'ばびぶべぼ', 'p': 'ぱぴぷぺぽ', 'm': 'まみむめも', 'y': 'や-ゆ-よ', 'r': 'らりるれろ', 'v': 'わゐ-ゑを'}
ODD = {'し': 'ṣi', 'じ': 'ji', 'ち': 'ci', 'つ': 'tsu', 'ぢ': 'ji', 'づ': 'zu', 'ふ': 'fu', 'ゐ': 'i', 'ゑ': 'e', 'ゔ': 'vu'}
MORA = {}
for c, row in ROWS.items():
    for v, k in zip(VOW, row):
        if k != '-':
            MORA[k] = ODD.get(k, c + v)
MORA['ゔ'] = 'vu'
for k in 'きぎしじちにひびぴみりぢ':
    c = MORA[k][:-1]
    for y, v in zip('ゃゅょ', 'auo'):
        MORA[k + y] = c + ('' if c in 'ṣjc' else 'y') + v
for k, v in zip('らりるれろ', VOW):
    MORA[k + '\u309A'] = 'l' + v
for k, v in zip('かきくけこ', VOW):
    MORA[k + '\u309A'] = 'ṅ' + v
SPLIT = re.compile('(っ?)(' + '|'.join(sorted(MORA, key=len, reverse=True)) + ')(ん?)(ー?)')
LONG = {'a': 'ā', 'i': 'ī', 'u': 'ū', 'e': 'ē', 'o': 'ō'}


def shift(w):
    """Hiragana to katakana."""
    return ''.join(chr(ord(c) + 0x60) if 0x3041 <= ord(c) <= 0x3096 else c for c in w)


def read(w):
    """The ISO 15919 reading of a hiragana word of moras, っ, ん and ー."""
    r = ''
    for d, m, n, l in SPLIT.findall(w):
        x = MORA[m]
        r += (x[0] if d and x[0] not in VOW else '') + x + ('N' if n else '') + ('-' if l else '')
    r = re.sub('N(?=[kg])', 'ṅ', r)
    r = re.sub('N(?=[pbm])', 'm', r)
    r = r.replace('N', 'n')
    return r


def join(r):
    """Long vowels and hiatus, from the left."""
    out, i = '', 0
    while i < len(r):
        c, d = r[i], r[i + 1:i + 2]
        if c in LONG and (d == c or d == '-' or c + d in ('ou', 'ei')):
            out += LONG[c]
            i += 2
        elif c + d in ('ai', 'au'):
            out += 'a:' + d
            i += 2
        else:
            out += c
            i += 1
    return out
