"""A fixed, systematic corpus of Devanagari words (the same in every run)."""
import random
from . import lang

VSIGN = ['', 'ा', 'ि', 'ी', 'ु', 'ू', 'ृ', 'े', 'ै', 'ो', 'ौ', '\u094d']


def words():
    rng = random.Random('corpus')
    out = list('अआइईउऊऋॠऌॡएऐओऔऎऒऑऍ')
    cons = lang.C33 + ['ळ', 'ऴ', 'ऱ', 'ऩ'] + lang.NUK
    for c in cons:
        out += [c + v for v in VSIGN]
        out += ['अ' + c + 'अ', 'आ' + c + 'ि', 'अं' + c, 'अँ' + c + 'ा', 'अः' + c, 'इ' + c + '्', 'प' + c + 'ं', 'क' + c + 'ः', c + '्' + c + 'ा']
    two = lang.C33 + ['ळ']
    out += [a + '्' + b for a in two for b in two]
    for a in ('क', 'त', 'स', 'न', 'र', 'द', 'ङ', 'ज'):
        for b in ('क', 'त', 'प', 'ष', 'म', 'ञ'):
            for c in 'यरलव':
                out.append(a + '्' + b + '्' + c + rng.choice(VSIGN[:-1]))
    out += list('०१२३४५६७८९') + ['।', '॥', 'ऽ', 'ॐ', '१२३ ४५६', 'नमः ॥ १२ ॥', 'कोऽपि', 'राम। कृष्ण॥', 'अइ', 'अउ', 'कइ', 'कउ', '|', '||', 'क ख', 'क, ख.', 'OM', 'कa']
    inv = lang.Inv(cons, range(0, 11), True, lang.AY)
    for _ in range(420):
        out.append(inv.word(rng) if hasattr(inv, 'word') else lang.spell(inv.tokens(rng)))
    for _ in range(60):
        out.append(' '.join(lang.spell(inv.tokens(rng)) for _ in range(3)))
    seen = set()
    return [w for w in out if not (w in seen or seen.add(w)) and '\n' not in w]
