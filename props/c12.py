"""C12: the script of a text is detected, and converting with detection is
converting from the detected script."""
import re
import unicodedata
from vlib import boot, cases, core, hostile
from vlib.call import tr

# first word of the Unicode names (after OLD) -> name; None: see VARIETIES
SAME = ('ahom avestan balinese bhaiksuki brahmi buginese buhid chakma cham devanagari dogra grantha gujarati gurmukhi hanunoo hebrew hiragana '
        'javanese kaithi kannada katakana kawi kharoshthi khmer khojki khudawadi lepcha limbu mahajani makasar malayalam marchen modi mongolian mro multani '
        'nandinagari newa oriya rejang saurashtra sharada siddham sinhala soyombo sundanese tagalog tagbanwa takri tamil telugu thaana thai tibetan tirhuta '
        'wancho').split()
EXPECT = {w: w.capitalize() for w in SAME}
EXPECT.update({'batak': 'BatakKaro', 'dives': 'DivesAkuru', 'gunjala': 'GunjalaGondi', 'masaram': 'MasaramGondi', 'hanifi': 'HanifiRohingya', 'meetei': 'MeeteiMayek',
               'ol': 'Santali', 'persian': 'OldPersian', 'phags-pa': 'PhagsPa', 'sora': 'SoraSompeng', 'syloti': 'SylotiNagri', 'tai tham': 'TaiTham', 'warang': 'WarangCiti',
               'zanabazar': 'ZanabazarSquare', 'cyrillic': 'RussianCyrillic',
               # supported through the consonantal scripts, by their codes
               'chorasmian': 'Chrs', 'egyptian': 'Egyp', 'elymaic': 'Elym', 'ethiopic': 'Ethi', 'greek': 'Grek', 'hatran': 'Hatr', 'imperial': 'Armi', 'inscriptional parthian': 'Prti',
               'inscriptional pahlavi': 'Phli', 'psalter': 'Phlp', 'manichaean': 'Mani', 'nabataean': 'Nbat', 'north': 'Narb', 'south': 'Sarb', 'palmyrene': 'Palm', 'phoenician': 'Phnx',
               'samaritan': 'Samr', 'old sogdian': 'Sogo', 'sogdian': 'Sogd', 'ugaritic': 'Ugar'})
TWO = ('tai', 'inscriptional', 'sogdian')
LETTERS = {}


def alphabets():
    """Letters and marks of each group, from the Unicode character database."""
    if LETTERS:
        return
    for c in list(range(0x370, 0x2e00)) + list(range(0x3040, 0x3100)) + list(range(0xa000, 0xac00)) + list(range(0x10300, 0x13430)) + list(range(0x16a00, 0x16b00)) + list(range(0x1e2c0, 0x1e300)):
        ch = chr(c)
        if unicodedata.category(ch)[0] not in 'LM':
            continue
        n = unicodedata.name(ch, '').lower().split(' ')
        if n[0] == 'old':
            g = 'old sogdian' if n[1] == 'sogdian' else n[1]
        elif n[0] in TWO and n[0] != 'sogdian':
            g = ' '.join(n[:2])
        else:
            g = n[0]
        if g in EXPECT or g in ('bengali', 'lao', 'myanmar', 'syriac', 'arabic'):
            LETTERS.setdefault(g, []).append(ch)


def group(ch):
    n = unicodedata.name(ch, '').lower().split(' ')
    return n[1] if n[0] == 'old' and len(n) > 1 else n[0]


def script(g):
    return g.split(' ')[-1] if g.startswith('old ') else g.split(' ')[0]


# ---- which of the scripts or schemes that share characters

LAO = 'ຆຉຌຎຏຐຑຒຓຘຠຨຩຬ຺'
MON = ['ၚ', 'ၛ', '္ည', 'ၞ', 'ၟ', 'ၠ', 'ဳ', 'ဨ']
FAR, URD = 'چگژپ', 'ڈٹڑھ'
SHAH = ['ݨ', 'لؕ', 'مھ', 'نھ', 'یھ', 'رھ', 'لھ', 'وھ']
EAST, WEST = 'ܸܹܲܵ', 'ܰܺܶܽ'
DIA = 'āīūṃḥśṣṇṛṝḷḹḻṉṟṭḍṅñ'
PLAIN = 'abcdefgijklmnopqrtuvxyzAIUTDNGJKMHS'       # no h, s, w: these start or are markers of others


def plain(rng, a, n):
    return [rng.choice(a) for _ in range(n)]


def variety(rng):
    """(text, expected) for a family of scripts that share characters."""
    k = rng.randrange(9)
    n = rng.randint(4, 25)
    if k == 0:
        a = [c for c in LETTERS['bengali'] if c not in 'ৰৱ' and c > '\u0980' and c < '\u09cd']
        x, e = plain(rng, a, n), 'Bengali'
        if rng.random() < .5:
            x.insert(rng.randrange(n), rng.choice('ৰৱ'))
            e = 'Assamese'
    elif k == 1:
        a = [c for c in LETTERS['lao'] if c not in LAO]
        x, e = plain(rng, a, n), 'Lao'
        if rng.random() < .6:
            x.insert(rng.randrange(n), rng.choice(LAO))
            e = 'LaoPali'
    elif k == 2:
        base = [chr(c) for c in range(0x1000, 0x1022)] + list('ါာိီုူေံ့း')
        base = [c for c in base if c not in MON and c != 'ည']
        x, e = plain(rng, base, n), 'Burmese'
        r = rng.random()
        if r < .3:
            x.insert(rng.randrange(n), rng.choice(MON))
            e = 'Mon'
        elif r < .8:
            own = {'Shan': [c for c in LETTERS['myanmar'] if ' SHAN ' in unicodedata.name(c) and c != '\u1083'],
                   'TaiLaing': [c for c in LETTERS['myanmar'] if ' TAI LAING ' in unicodedata.name(c)],
                   'KhamtiShan': [c for c in LETTERS['myanmar'] if ' KHAMTI ' in unicodedata.name(c)]}
            e = rng.choice(sorted(own))
            m = rng.randint(1, 5)
            for _ in range(m):
                x.insert(rng.randrange(n), rng.choice(own[e]))
            for _ in range(rng.randint(0, m - 1)):      # fewer of another
                x.insert(rng.randrange(n), rng.choice(own[rng.choice(sorted(own))]))
            cnt = {o: sum(c in own[o] for c in x) for o in own}
            if list(cnt.values()).count(max(cnt.values())) > 1:
                return None
            e = max(cnt, key=cnt.get)
        elif r < .9:
            x.insert(rng.randrange(n), '\u1083')     # used in several of them: tells nothing
    elif k == 3:
        a = [c for c in LETTERS['syriac'] if '\u0710' <= c <= '\u072c' and c not in 'ܝܘ']
        x, e = plain(rng, a, n), 'Syre'
        r = rng.random()
        if r < .6:
            if r < .4:
                x.insert(rng.randrange(n), rng.choice(EAST))
                e = 'Syrn'
            if r > .2:
                x.insert(rng.randrange(n), rng.choice(WEST))
                e = 'Syrj'
    elif k == 4:
        a = list('ابتثجحخدذرزسشصضطظعغفقكلمنهوي')
        x, e = plain(rng, a, n), 'Arab'
        for p, s, name in ((.5, FAR, 'Arab-Fa'), (.35, URD, 'Urdu'), (.3, SHAH, 'Shahmukhi')):
            if rng.random() < p:
                x.insert(rng.randrange(n), ' ' + rng.choice(s))
                e = name
        y = ''.join(x)
        if any(c in y for c in SHAH) and e != 'Shahmukhi':
            return None
    elif k in (5, 6):
        x = plain(rng, PLAIN, n)
        e = 'HK'
        lev = [('Itrans', ['R^i', 'R^I', 'L^i', 'L^I', '.N', '~N', '~n', 'Ch', 'sh', 'Sh']), ('IAST', list(DIA)), ('ISO', None), ('BurmeseRomanLoC', ['´', '˝', 'ʻ']),
               ('Latn', list('ʾʿšw')), ('Titus', ['ʰ'])]
        top = rng.randrange(-1, 6)
        for i, (name, ms) in enumerate(lev):
            if i == top or i < top and rng.random() < .3 or i == 1 and top == 2:
                if name == 'ISO':
                    if top == 2 or rng.random() < .2:
                        x.insert(rng.randrange(n), ' ' + rng.choice(['ē', 'ō', 'r̥']))
                    continue
                x.insert(rng.randrange(n), ' ' + rng.choice(ms))
        if top >= 0:
            e = lev[top][0]
    else:
        return None
    return ''.join(x), e


def detect(rec, a):
    rng = core.rng('C12d', a)
    T = boot.get()
    names = sorted(EXPECT)
    for i in range(60):
        g = names[(a * 60 + i) % len(names)]
        n = rng.randint(1, 40)
        x = [rng.choice(LETTERS[g]) for _ in range(n)]
        mixed = {}
        for _ in range(rng.choice((0, 0, 1, 2, 3))):     # fewer of something else, in one or two runs
            what = rng.choice(('space', 'digit', 'latin', 'other', 'punct', 'nl'))
            m = rng.randint(0, max(0, n - 1) // 2)
            if what == 'space':
                y = [' '] * m
            elif what == 'digit':
                y = [rng.choice('0123456789') for _ in range(m)]
            elif what == 'latin':
                y = [rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(m)]
            elif what == 'punct':
                y = [rng.choice('.,()-!?।॥;:') for _ in range(m)]
            elif what == 'nl':
                y = ['\n'] * min(m, 3)
            else:
                y = [rng.choice(LETTERS[rng.choice(names)]) for _ in range(m)]
            if rng.random() < .5:
                p = rng.choice((0, len(x), rng.randrange(len(x) + 1)))
                x[p:p] = y
            else:
                for c in y:
                    x.insert(rng.randrange(len(x) + 1), c)
        cnt = {}
        for c in x:
            if unicodedata.name(c, ''):
                cnt[group(c)] = cnt.get(group(c), 0) + 1
        own = cnt.get(script(g), 0)
        if any(v >= own for k, v in cnt.items() if k != script(g)):
            continue
        if g in ('old sogdian', 'sogdian', 'inscriptional parthian', 'inscriptional pahlavi') or len(EXPECT[g]) == 4:
            # judged by script property: everything common counts together
            com = sum(1 for c in x if c not in LETTERS[g])
            if com >= sum(1 for c in x if c in LETTERS[g]):
                continue
        if EXPECT[g] == 'TaiTham' and any(group(c) == 'tai' and c not in LETTERS['tai tham'] for c in x):
            continue
        y = ''.join(x)
        d = T.auto_detect(y)
        rec.ok(('d', y))
        rec.count['texts of one main script detected'] += 1
        if d != EXPECT[g]:
            rec.violation('script not detected', text=y, script=EXPECT[g], got=d, share='%d of %d' % (own, len(x)))
        if 'latin' in cnt and len(cnt) > 1:
            # detection for the browser plug-in passes Latin text over
            z = ''.join(rng.choice('abcxyz') for _ in range(own + 2 + cnt['latin'])) + y
            d = T.auto_detect(z, plugin=True)
            srt = sorted(cnt[k] for k in cnt if k != 'latin')
            if EXPECT[g] not in ('Grek',) and len(EXPECT[g]) != 4:
                rec.count['texts in Latin surroundings'] += 1
                if d != EXPECT[g]:
                    rec.violation('script not detected among Latin text', text=z, script=EXPECT[g], got=d)
        rec.sample({'text': ascii(y)[:120], 'detected': d, 'expected': EXPECT[g]})


def varieties(rec, a):
    rng = core.rng('C12v', a)
    T = boot.get()
    for _ in range(120):
        v = variety(rng)
        if v is None:
            continue
        x, e = v
        d = T.auto_detect(x)
        rec.ok(('v', x))
        rec.count['texts of a variety detected'] += 1
        if d != e:
            rec.violation('variety not detected', text=x, expected=e, got=d)


# ---- Pali orthographies of Thai and Lao: found out and read

def preoptions(rec, a):
    """Which orthography of Thai and Lao a text is in, by its signs."""
    rng = core.rng('C12p', a)
    T = boot.get()
    for _ in range(80):
        s = rng.choice(('Thai', 'Lao', 'LaoPali', 'Urdu', rng.choice(cases.ALL)))
        base = [chr(c) for c in range(0xe01, 0xe2f)] if s == 'Thai' else [chr(c) for c in (0xe81, 0xe82, 0xe84, 0xe87, 0xe88, 0xe8a, 0xe99, 0xe9a, 0xea1, 0xea5)]
        x = [rng.choice(base) for _ in range(rng.randint(1, 12))]
        off = 0 if s == 'Thai' else 0x80
        marks = {'tha': chr(0xe4c + off), 'a': chr(0xe30 + off), 'an': chr(0xe31 + off), 'silenth': chr(0xe2b + off) + chr(0xe4c + off)}
        use = [m for m in marks if rng.random() < .35]
        ph = s == 'Thai' and rng.random() < .25
        for m in use:
            x.insert(rng.randrange(len(x) + 1), marks[m])
        if ph:
            x.insert(rng.randrange(len(x) + 1), rng.choice(('\u035c', '\u0325', 'งํ', '\u0e47')))
        y = ''.join(x)
        rest = y.replace(marks['silenth'], '')
        if s == 'Thai':
            e = (['ThaiPhonetic'] if any(c in y for c in ('\u035c', '\u0325', 'งํ', '\u0e47')) else ['ThaiSajjhayawithA'] if marks['tha'] in rest and marks['a'] in y else
                 ['ThaiSajjhayaOrthography'] if marks['tha'] in rest else ['ThaiOrthography'] if marks['a'] in y or marks['an'] in y else [])
        elif s in ('Lao', 'LaoPali'):
            e = (['LaoSajhayaOrthographywithA'] if marks['tha'] in rest and marks['a'] in y else ['LaoSajhayaOrthography'] if marks['tha'] in rest else
                 ['LaoTranscription'] if marks['a'] in y or marks['an'] in y else [])
        else:
            e = ['UrduShortNotShown'] if s == 'Urdu' else []
        d = T.detect_preoptions(y, s)
        rec.ok(('p', s, y))
        rec.count['orthographies told apart'] += 1
        if list(d) != e:
            rec.violation('orthography', script=s, text=y, expected=e, got=repr(d))


# Pali words written in an orthography of Thai or Lao, read back without naming it
PALI = ('k kh g gh ṅ c ch j jh ñ ṭ ṭh ḍ ḍh ṇ t th d dh n p ph b bh m y r l v s h').split()


def pali(rng):
    """A Pali word in IAST."""
    w = ''
    if rng.random() < .3:
        w = rng.choice('aāiīuūeo')
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        c = rng.choice(PALI)
        if w and r < .3:
            c = rng.choice(('kk', 'kkh', 'cc', 'cch', 'jj', 'tt', 'tth', 'dd', 'ddh', 'pp', 'mm', 'nn', 'ss', 'll', 'nt', 'nd', 'mp', 'mb', 'ñc', 'ṇḍ'))
        w += c + rng.choice('aaaāiīuūeo')
        if rng.random() < .1:
            w += 'ṃ'
    return w


READ = [('Thai', 'ThaiTranscription', 'ThaiOrthography', 'ṃ|ll[eo]'), ('Thai', 'ThaiSajjhayaOrthography', 'ThaiSajjhayaOrthography', '$^'), ('Thai', 'ThaiSajjhayawithA', 'ThaiSajjhayawithA', 'ṃ'),
        ('LaoPali', 'LaoSajjhaya', 'LaoSajhayaOrthography', '$^'), ('LaoPali', 'LaoSajjhayawithA', 'LaoSajhayaOrthographywithA', 'ṃ'), ('LaoPali', 'LaoTranscription', 'LaoTranscription', 'ṃ')]


def read(rec, a):
    """Pali written in an orthography is read back by detection alone."""
    rng = core.rng('C12r', a)
    T = boot.get()
    for _ in range(8):
        for s, o, p, no in READ:
            w = ' '.join(pali(rng) for _ in range(rng.randint(1, 3)))
            if re.search(no, w):
                continue
            x = tr(rec, 'IAST', s, w, post_options=[o])
            if x is None:
                continue
            d = T.auto_detect(x)
            if d != s or T.detect_preoptions(x, d) != [p]:      # nothing in it tells
                rec.count['Pali texts without the signs'] += 1
                continue
            y = tr(rec, 'autodetect', 'IAST', x)
            rec.ok(('r', s, o, w))
            rec.count['read back by %s' % p] += 1
            rec.count['Pali texts read back'] += 1
            if y is not None and y != w:
                rec.violation('orthography not read back', text=w, script=s, option=o, written=x, got=y)


def law(rec, a):
    """process('autodetect') is process(detected, detected orthography)."""
    rng = core.rng('C12l', a)
    T = boot.get()
    for i in range(40):
        s = cases.ALL[(a * 40 + i) % len(cases.ALL)]
        x = cases.words(rng, s, rng.randint(1, 5)) if rng.random() < .7 else hostile.text(rng, s, rng.choice(cases.ALL))
        if rng.random() < .15 and s in ('Thai', 'Lao', 'LaoPali'):
            x += rng.choice(('ะ', 'ธัมมะ', 'ະ', '໌', '์'))
        t = rng.choice(cases.ALL)
        nat = rng.random() < .5
        d = T.auto_detect(x)
        if d == 'PersianDMG' or (d == 'Tamil' and t == 'IPA'):
            continue
        po = [cases.named(rng, 'post', s, t)] if rng.random() < .3 else []
        pre = T.detect_preoptions(x, d)
        one = tr(rec, 'autodetect', t, x, nativize=nat, post_options=list(po))
        two = tr(rec, d, t, x, nativize=nat, post_options=list(po), pre_options=list(pre))
        if one is None or two is None:
            continue
        rec.ok(('l', t, x, nat, tuple(po)))
        rec.count['conversions with detection'] += 1
        if one != two:
            rec.violation('detected source gives another result', text=x, tgt=t, detected=d, pre=pre, nativize=nat, post=po, got=one[:200], want=two[:200])
        if i % 4 == 0:      # the same through the codes
            kind, c, name = rng.choice((('script_code', 'Deva', 'Devanagari'), ('script_code', 'Telu', 'Telugu'), ('script_code', 'Latn-IAST', 'IAST'), ('lang_code', 'ta', 'Tamil'),
                                        ('lang_code', 'kn', 'Kannada'), ('lang_name', 'Malayalam', 'Malayalam'), ('lang_name', 'Gujarati', 'Gujarati'), ('script_code', 'Syre', 'Syre')))
            try:
                one = T.process('autodetect', c, x, nativize=nat, post_options=list(po), param=kind)
            except core.Hang:
                raise
            except Exception as e:
                rec.violation('raised', text=x, tgt=c, param=kind, error='%s: %s' % (type(e).__name__, e))
                continue
            two = tr(rec, d, name, x, nativize=nat, post_options=list(po), pre_options=list(pre))
            rec.count['conversions with detection and codes'] += 1
            if two is not None and one != two:
                rec.violation('detected source with a code for the target gives another result', text=x, tgt=c, param=kind, detected=d, got=repr(one)[:200], want=two[:200])


def run(ctx):
    boot.get()
    alphabets()
    ctx.rule = 'distinct texts whose script was detected, or that were converted with detection and with the detected script named'
    ctx.map(__name__, 'detect', range(ctx.n(150, 1500)))
    ctx.map(__name__, 'varieties', range(ctx.n(80, 900)))
    ctx.map(__name__, 'preoptions', range(ctx.n(40, 600)))
    ctx.map(__name__, 'read', range(ctx.n(40, 600)))
    ctx.map(__name__, 'law', range(ctx.n(150, 2400)))
    ctx.minimum = 6000
