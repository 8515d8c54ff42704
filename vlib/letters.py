"""Letter correspondence: what each hub letter, digit, sign and two-letter
combination is written as in a script."""
from . import call, lang
from .lang import V, VS, VIR, AY, DIG, CONS, spell

SIGNS = ['।', '॥', 'ऽ', 'ॐ']
EXTRA = ['०', '१', '२', '३', '४', '५', '६', '७', '८', '९']


def items(inv):
    """The single letters: vowels, consonants with and without inherent vowel,
    one consonant with each vowel sign, ayogavahas, digits, signs."""
    ls = [V[i] for i in inv.vows]
    for c in inv.cons:
        ls.append(c)
        if inv.vir:
            ls.append(spell([c + VIR]))
    k = inv.cons[0]
    ls += [k + VS[i] for i in inv.vows if i and k + VS[i] not in inv.cv_bad]
    ls += [k + a for a in inv.ay]
    if inv.vir:
        ls += [spell([k + VIR, c]) for c in inv.cons]
    ls += DIG + SIGNS
    return list(dict.fromkeys(ls))


def combos(inv):
    """(combination, parts) : consonant+vowel sign, consonant cluster."""
    out = []
    for c in inv.cons:
        for i in inv.vows:
            if i and c + VS[i] not in inv.cv_bad:
                out.append((c + VS[i], 'v', c, i))
    if inv.vir:
        for a in inv.cons:
            for b in inv.cons:
                out.append((spell([a + VIR, b]), 'c', a, b))
    return [o for o in out if inv.allows(o[0])]


def predict(L, inv, kind, x, y):
    """What the letters alone suggest for the combination."""
    k = inv.cons[0]
    if kind == 'c':
        ky = L[spell([k + VIR, y])]
        pre = sorted(((L[k], L[x]), (L[spell([k + VIR])], L[spell([x + VIR])])), key=lambda p: -len(p[0]))
        for kk, cc in pre:
            if kk and ky.startswith(kk):
                return cc + ky[len(kk):]
        return L[spell([x + VIR])] + L[y]
    kv = L.get(k + VS[y])
    if kv is None:
        return None
    for kk, cc in ((L[k], L[x]), (L.get(spell([k + VIR])), L.get(spell([x + VIR])))):
        if kk and cc and kk in kv:
            return kv.replace(kk, cc, 1)
    return None


def convert(rec, S):
    from . import rules
    inv = rules.inventories()[S]
    ls = items(inv)
    L = dict(zip(ls, call.lines(rec, 'Devanagari', S, ls)))
    cs = combos(inv)
    C = call.lines(rec, 'Devanagari', S, [c[0] for c in cs])
    return inv, L, cs, C


def observe(rec, S):
    inv, L, cs, C = convert(rec, S)
    exc = {}
    for (w, kind, x, y), o in zip(cs, C):
        if predict(L, inv, kind, x, y) != o:
            exc[w] = o
    return {'letters': L, 'exc': exc}
