"""Neutral model of an akshara sequence, spelled in Devanagari (the hub).

A word is a list of tokens (hub strings): 'क्' (consonant+virama), 'कि'
(consonant + vowel sign), 'अ' (independent vowel), 'ं' (ayogavaha).
"""
import re

C33 = list('कखगघङचछजझञटठडढणतथदधनपफबभमयरलवशषसह')
CX = list('ळऴऱऩ')
NUK = [chr(x) for x in range(0x958, 0x960)]
CONS = C33 + CX + NUK
V = list('अआइईउऊऋॠऌॡऎएऐऒओऔऍऑ')
VS = [''] + list('ािीुूृॄॢॣॆेैॊोौॅॉ')
AY = list('ंःँ')
DIG = list('०१२३४५६७८९')
VIR = '\u094d'
RRA = '\u0931'
ZWNJ = '\u200c'
_rra = re.compile('\u0931\u094d(?![यह\u200c])')


def spell(toks):
    """Devanagari spelling; a vowelless RRA takes ZWNJ except before ya/ha
    (the eyelash-ra convention the library documents for Marathi)."""
    return _rra.sub('\u0931\u094d\u200c', ''.join(toks))


class Inv:
    """The part of the shared inventory a script writes distinctly."""

    def __init__(self, cons, vows, vir=True, ay='', cv_bad=(), excl=(), misc=''):
        self.cons = list(cons)
        self.vows = list(vows)          # indices into V / VS
        self.vir = vir
        self.ay = list(ay)
        self.cv_bad = set(cv_bad)
        self.excl = sorted(set(excl))
        self.misc = misc
        self.rx = re.compile('|'.join(['(?:%s)' % e for e in self.excl])) if self.excl else None

    @classmethod
    def of(cls, d):
        return cls(d['cons'], d['vows'], d['vir'], d['ay'], d.get('cv_bad', ()),
                   d.get('excl', ()), d.get('misc', ''))

    def meet(self, o):
        return Inv([c for c in self.cons if c in o.cons],
                   [v for v in self.vows if v in o.vows],
                   self.vir and o.vir, [a for a in self.ay if a in o.ay],
                   self.cv_bad | o.cv_bad, list(self.excl) + list(o.excl),
                   ''.join(m for m in self.misc if m in o.misc))

    def usable(self):
        return bool(self.cons) and bool(self.vows)

    def allows(self, w):
        return not (self.rx and self.rx.search(w))

    def tokens(self, rng, maxlen=4):
        t = []
        n = rng.randint(1, maxlen)
        for k in range(n):
            if k == 0 and rng.random() < .25:
                t.append(V[rng.choice(self.vows)])
            else:
                if self.vir:
                    for _ in range(rng.choice((0, 0, 0, 0, 1, 1, 1, 2, 2, 3))):
                        t.append(rng.choice(self.cons) + VIR)
                c = rng.choice(self.cons)
                v = rng.choice(self.vows) if rng.random() < .75 else 0
                if v not in self.vows or c + VS[v] in self.cv_bad:
                    v = 0
                t.append(c + VS[v])
            if self.ay and rng.random() < .12:
                t.append(rng.choice(self.ay))
        if self.vir and rng.random() < .1 and t[-1] not in AY:
            t.append(rng.choice(self.cons) + VIR)
        return t

    def words(self, rng, n, maxlen=4):
        out = []
        guard = 0
        while len(out) < n:
            guard += 1
            if guard > 60 * n + 1000:
                break
            w = spell(self.tokens(rng, maxlen))
            if self.allows(w):
                out.append(w)
        return out


def aksharas(inv):
    """Every single akshara of the inventory (systematic part)."""
    out = [V[i] for i in inv.vows]
    for c in inv.cons:
        for i in inv.vows:
            if c + VS[i] not in inv.cv_bad:
                out.append(c + VS[i])
        if inv.vir:
            out.append(c + VIR)
        for a in inv.ay:
            out.append(c + a)
    for i in inv.vows:
        for a in inv.ay:
            out.append(V[i] + a)
            out.append(inv.cons[0] + VS[i] + a)
    out = [spell([w]) for w in out]
    return [w for w in dict.fromkeys(out) if inv.allows(w)]


def conjuncts(inv):
    """Every two-consonant cluster of the inventory."""
    if not inv.vir:
        return []
    out = []
    for a in inv.cons:
        for b in inv.cons:
            out.append(spell([a + VIR, b]))
    return [w for w in out if inv.allows(w)]
