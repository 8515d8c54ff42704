"""Words in the transliteration of the Semitic scripts (the hub is Latn)."""
import functools
import unicodedata
from . import core

BLOCK = 10


@functools.lru_cache(None)
def spec():
    return core.spec('semitic.json')


def vowel(k):
    return unicodedata.normalize('NFD', k)[0] in 'aeiou'


LONG = '\ua789'


def lengthens(k):
    """Doubling belongs to a consonant without other marks."""
    d = unicodedata.normalize('NFD', k)
    return d[0].isalpha() and d[0] not in 'aeiou\u02be' and not any(c in '\u033d\u0302\u207f' + LONG for c in d)


class Letters:
    def __init__(self, letters, never):
        self.letters = letters
        self.never = never

    def meet(self, o):
        return Letters([k for k in self.letters if k in o.letters], self.never + o.never)

    def word(self, rng, n=6):
        for _ in range(200):
            l = []
            for _ in range(rng.randint(1, n)):
                k = rng.choice(self.letters)
                if k[0] == LONG and not (l and lengthens(l[-1])):
                    continue
                if not (l and vowel(k) and vowel(l[-1])):
                    l.append(k)
            w = ''.join(l)
            d = [vowel(unicodedata.normalize('NFC', c)) for c in w]
            if not any(a and b for a, b in zip(d, d[1:])) and not any(x in w for x in self.never):
                return w
        return self.letters[0]

    def words(self, rng, n):
        return [self.word(rng) for _ in range(n)]


def of(s):
    d = spec()['scripts'][s]
    return Letters(d['letters'], d['never'])
