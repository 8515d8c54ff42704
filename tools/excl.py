"""Hand-written audit of sequences that a script or scheme cannot write
distinctly (domain limits), with the reason. Hub spelling, regexes."""
# word-initial OM look-alikes are written with the script's OM sign
EXCL = {'Devanagari': [r'^[ओऒअआएऔ](?:[ंँ]|म्)']}
DROP = {}
SKIP = {'Devanagari', 'Hiragana', 'Katakana'}


def ex(names, *rx):
    for n in names.split():
        EXCL.setdefault(n, []).extend(rx)


def drop(names, letters):
    for n in names.split():
        DROP[n] = DROP.get(n, '') + ' ' + letters


ex('DivesAkuru', 'र्')
ex('Tibetan TibetanLoC', '[गडदबज]्ह')
ex('Gurmukhi GurmukhiLoC Khojki', 'ऩ्ऩ', 'ऴ्ऴ', 'श्ष', 'स्श', 'ट्ट')
ex('ThamLoC TaiTham LaoTham LueTham KhuenTham', 'ङ्')
ex('ShanLoC Shan', 'स्य', 'श्र', 'ूव्', 'ऊव्')
ex('Hebrew', 'िय', 'इय', '([पब])्\\1')
ex('KhomThai', '्र्')
ex('KhamtiShan TaiLaing', '्[यरव]्[यरव]', 'व्व')
ex('Mon Burmese', '्र्')
ex('Thaana', '(.)्\\1')
ex('Ahom', 'ें', 'एं', 'ौ', 'औ')
ex('Bengali', '्[वब]')
ex('Ariyaka', 'ो[ं]')
ex('Aksharaa', 'ों', 'स्ह', 'श्ह')
ex('SLP1', 'ढ')
ex('Avestan', '[िइुउैऐौऔ][यव]')
ex('AssameseRomanLoC BengaliRomanLoC GujaratiRomanLoC OriyaRomanLoC GurmukhiLoCRomanLoC TibetanLoCRomanLoC RomanKana', 'स्ह')
ex('BalineseSimpleRomanLoC JavaneseSimpleRomanLoC', 'ण्ग', 'ण्य')
ex('BalineseRomanLoC JavaneseRomanLoC', 'न्ग', 'न्य')
ex('BarahaNorth BarahaSouth', 'श्ह', 'स्ह', 'छ्ह')
ex('Burmese Mon KhamtiShan TaiLaing', '्[यरवह]्[यरवह]')
ex('GurmukhiLoCRomanLoC', 'ँ[बपभफम]')
ex('RomanLoC Wancho TolongSiki', 'ं')
ex('ThamLoCRomanLoC', 'ञ्ञ')
ex('RomanColloquial RomanReadable RomanKana', '[ङणनञम]्', 'ं', '[कखगघचछजझटठडढतथदधपफबभसरर]्ह')
ex('WarangCiti', 'ब', 'भ')
ex('Itrans', 'ण्ऩ', 'ङ्ऩ', 'ऩ', '[सश]्ह', 'ॊ', 'ऒ', 'ँ')
ex('Chakma', '(.्)\\1.*(.्)\\2')
ex('Avestan', '[ऋृऌॢरल].*[ऋृऌॢरल]')
pass
ex('Gurmukhi GurmukhiLoC Khojki', 'ऱ्‌ऱ', '(.़?)्\\1्')
ex('Itrans', 'ळ्ळ', 'ऱ्‌ऱ')
ex('KhomThai', '्र.*्र', 'र.*्र')
ex('ThamLoC TaiTham LaoTham LueTham KhuenTham', '्र्य')
ex('Shan', '्[यरव]्[यरव]')
ex('TamilGrantha', 'ॆळ')
ex('Thai', '(?:.़?्){2,}.़?[ॆेैॊोौॉॅ]')
ex('WX-kok', 'ऩ्ग')
drop('Urdu Shahmukhi', 'े ए ं')
ex('Urdu Shahmukhi', 'ल्ह')
ex('Avestan', '[ॅऍॣ][रल]', '.[ॅॣ].*[रल]')
EXCL['Chakma'] = [r'्.़?्']
ex('Itrans', 'द्न्य')
ex('Mon', '(?:र|्)्?.*्र')
ex('Urdu Shahmukhi', 'य्', '[नरमयलव]्ह')
ex('Tamil TamilGrantha', 'स्री')
ex('Tibetan TibetanLoC', 'व्व')
ex('WX-kok', 'ऩ्')
ex('Velthuis', '^ओ.{1,3}म्')
ex('Velthuis', '^ओ.{1,3}म्?[ृॄॢॣ]')
ex('Urdu Shahmukhi', 'िय', 'इय')
ex('Avestan', 'ॡ.*[ॣॄ]')
_ROM = '''Aksharaa AssameseRomanLoC BalineseRomanLoC BalineseSimpleRomanLoC BarahaNorth BarahaSouth BengaliRomanLoC
BurmeseRomanLoC DevanagariRomanLoC GujaratiRomanLoC GurmukhiLoCRomanLoC HK IAST IASTPali ISO ISOPali Itrans
JavaneseRomanLoC JavaneseSimpleRomanLoC KannadaRomanLoC KhmerLoCRomanLoC LimbuLoCRomanLoC OriyaRomanLoC RomanColloquial
RomanLoC RomanReadable RussianCyrillic ShanLoCRomanLoC SinhalaRomanLoC TeluguRomanLoC ThamLoCRomanLoC Velthuis
Gurmukhi GurmukhiLoC TibetanLoC Tibetan Khojki TibetanLoCRomanLoC'''
# nukta consonant + ha spells the same digraph as the aspirate
ex(_ROM, '[\u0958-\u095f]्ह')
ex('Gurmukhi GurmukhiLoC Khojki Urdu Shahmukhi', '्[\u0958-\u095f]')
ex('Aksharaa', 'न्[\u0958-\u095f]')
ex('Itrans', '\u095a्')
drop('PhagsPa SLP1 WX-kok TibetanLoCRomanLoC', ' '.join(chr(x) for x in range(0x958, 0x960)))
drop('SLP1', 'ढ')
