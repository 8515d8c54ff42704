"""C18: converting files."""
import base64
import contextlib
import hashlib
import html as H
import io
import os
import shutil
import sys
import tempfile
import unicodedata
import warnings
import zipfile
from html.parser import HTMLParser
from xml.etree import ElementTree as ET
from vlib import boot, cases, core, corpus, hostile

W = 'http://schemas.openxmlformats.org/wordprocessingml/2006/main'
M = 'http://schemas.openxmlformats.org/officeDocument/2006/math'
R = 'http://schemas.openxmlformats.org/officeDocument/2006/relationships'
# scripts whose conversion needs libraries slow to start, or the network
NOT = ('Hiragana', 'Katakana', 'Japanese', 'RomanLoC')


class Scratch:
    """A directory of its own as the working directory, watched."""

    def __init__(self, rec=None):
        self.rec = rec

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-c18-')
        self.old = os.getcwd()
        self.fds = []
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        f = self.fds
        if self.rec is not None and len(f) > 4 and f[-1] - f[1] >= len(f) - 3:
            self.rec.violation('files are left open', counts=f)
        shutil.rmtree(self.d, ignore_errors=True)

    def state(self):
        r = {}
        for base, _, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(base, f)
                with open(p, 'rb') as h:
                    r[os.path.relpath(p, self.d)] = hashlib.sha256(h.read()).hexdigest()
        return r


def fds():
    return len(os.listdir('/proc/self/fd'))


def mod():
    boot.get()
    from aksharamukha import transliterate_file
    return transliterate_file


def clean(x):
    """What XML and HTML can hold, unchanged by parsers."""
    return ''.join(c for c in x if c in '\n' or (ord(c) >= 0x20 and not 0x7f <= ord(c) < 0xa0 and not 0xd800 <= ord(c) < 0xe000 and ord(c) & 0xfffe != 0xfffe and not 0xfdd0 <= ord(c) <= 0xfdef))


def one(rng):
    """Scripts and keywords of a call."""
    while True:
        s, t, x, kw = cases.case(rng)
        if 'param' in kw or s == 'autodetect' or s in NOT or t in NOT or s == t or (s, t) == ('Tamil', 'IPA'):
            continue
        kw = {'nativize': kw['nativize'], 'post_options': [o for o in kw.get('post_options', []) if 'agana' not in o and 'Khmer' not in o and o in cases.OPT['post']],
              'pre_options': [o for o in kw.get('pre_options', []) if o in cases.OPT['pre']]}
        return s, t, kw


def text(rng, s, t):
    k = rng.random()
    if k < .55:
        return cases.words(rng, s, rng.randint(1, 6)) if s in hostile.OWN else ' '.join(rng.choice(corpus.words()) for _ in range(3))
    if k < .65:
        return ' '.join(rng.choice(corpus.words()) for _ in range(3))
    if k < .75:
        return rng.choice(('A & B', '1 < 2 > 0', '“x”', '   ', 'plain text', '\u00a0', "it's \"q\"", '१२३।', '\u200d', '&amp;', '<b>', '[1]', '...', 'OM'))
    return clean(hostile.text(rng, s, t))


class Want:
    def __init__(self, s, t, kw):
        self.a = s, t
        self.kw = kw
        self.T = boot.get()

    def __call__(self, x):
        return self.T.convert(*self.a, x, self.kw['nativize'], list(self.kw['pre_options']), list(self.kw['post_options']))


# ---- HTML
class Events(HTMLParser):
    def __init__(self, x):
        super().__init__(convert_charrefs=True)
        self.ev = []
        self.raw = None
        self.pre = 0
        self.feed(x)
        self.close()

    def put(self, *e):
        self.ev.append(e)

    def handle_starttag(self, tag, attrs):
        self.put('<', tag, tuple(sorted((k, v or '') for k, v in attrs)))
        self.pre += tag == 'pre'
        if tag in ('script', 'style'):
            self.raw = tag
        if tag in VOID:
            self.put('>', tag)

    def handle_startendtag(self, tag, attrs):
        self.put('<', tag, tuple(sorted((k, v or '') for k, v in attrs)))
        self.put('>', tag)

    def handle_endtag(self, tag):
        self.raw = None
        self.pre -= tag == 'pre'
        if tag not in VOID:
            self.put('>', tag)

    def handle_data(self, d):
        kind = 'raw' if self.raw else 'pre' if self.pre else 'text'
        if self.ev and self.ev[-1][0] == kind:
            self.ev[-1] = (kind, self.ev[-1][1] + d)
        else:
            self.put(kind, d)

    def handle_comment(self, d):
        self.put('!', d)

    def handle_decl(self, d):
        self.put('!doctype', d.lower())


VOID = ('br', 'img', 'hr', 'meta', 'link', 'input')


def esc(rng, x):
    """Text as markup, some characters as entities."""
    o = []
    for c in x:
        if c in '&<>':
            o.append(H.escape(c))
        elif ord(c) > 0x7f and rng.random() < .03:
            o.append('&#%d;' % ord(c) if rng.random() < .5 else '&#x%x;' % ord(c))
        elif c == '\u00a0':
            o.append('&nbsp;')
        else:
            o.append(c)
    return ''.join(o)


def attrs(rng, s, t):
    o = []
    for k in rng.sample(['class', 'id', 'title', 'data-x', 'lang', 'style', 'alt'], rng.choice((0, 0, 1, 1, 2, 3))):
        o.append(' %s="%s"' % (k, H.escape(' '.join(text(rng, s, t).split()) if rng.random() < .6 else 'x1')))
    return ''.join(o)


INLINE = ['b', 'i', 'em', 'span', 'a', 'u', 'sup', 'code', 'ruby', 'small', 'q']


def inline(rng, s, t, depth):
    o = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < .55 or depth > 3:
            o.append(esc(rng, text(rng, s, t)))
        elif k < .85:
            tag = rng.choice(INLINE)
            o.append('<%s%s>%s</%s>' % (tag, attrs(rng, s, t), inline(rng, s, t, depth + 1) if tag != 'a' else esc(rng, text(rng, s, t)), tag))
        elif k < .92:
            o.append('<br/>' if rng.random() < .5 else '<img%s/>' % attrs(rng, s, t))
        else:
            o.append('<!-- c %s -->' % text(rng, s, t).replace('-', '').replace('>', '').replace('<', '').replace('&', ''))
    return ''.join(o)


def block(rng, s, t, depth=0):
    k = rng.random()
    ws = rng.choice(('', '', '\n', '\n  ', ' '))
    if k < .45:
        tag = rng.choice(['p', 'h1', 'h3', 'blockquote', 'pre'])
        x = inline(rng, s, t, 0)
        if tag == 'pre':
            x = x.lstrip('\n')
        return '<%s%s>%s</%s>' % (tag, attrs(rng, s, t), x, tag) + ws
    if k < .6:
        return '<ul>%s</ul>' % ''.join('<li>%s</li>%s' % (inline(rng, s, t, 1), ws) for _ in range(rng.randint(1, 3))) + ws
    if k < .7:
        return '<table><tbody><tr><td>%s</td><th>%s</th></tr></tbody></table>' % (inline(rng, s, t, 1), inline(rng, s, t, 1)) + ws
    if k < .78:
        return '<script>var x = "%s"; if (1 < 2) { y("क"); }</script>' % text(rng, s, t).replace('<', '').replace('"', '').replace('\n', '') + ws
    if k < .83:
        return '<style>.क { content: "%s" }</style>' % text(rng, s, t).replace('<', '').replace('\n', '') + ws
    if depth < 3:
        tag = rng.choice(['div', 'section', 'article'])
        return '<%s%s>%s%s</%s>' % (tag, attrs(rng, s, t), ws, ''.join(block(rng, s, t, depth + 1) for _ in range(rng.randint(1, 3))), tag) + ws
    return '<hr/>'


def htmldoc(rng, s, t):
    return '<!DOCTYPE html><html lang="x"><head><meta charset="utf-8"/><title>%s</title></head><body>%s<hr/></body></html>' % (
        'x ' + esc(rng, text(rng, s, t)), ''.join(block(rng, s, t) for _ in range(rng.randint(1, 4))))


def norm(ev):
    """Without empty text, and blank text outside or at the end of the body."""
    o = []
    body = False
    for e in ev:
        if e[:2] == ('<', 'body'):
            body = True
        if e[0] == 'text' and not (e[1].strip() if not body else e[1]):
            continue
        if e == ('pre', ''):
            continue
        if e[0] == 'text' and not e[1].strip(' \n\t\r\f'):   # the parser keeps one blank
            e = ('text', '\n' if '\n' in e[1] else ' ')
        o.append(e)
    if o and o[-1] == ('>', 'html') and ('>', 'body') in o:
        i = len(o) - 1 - o[::-1].index(('>', 'body'))
        tail = [e for e in o[i:] if e[0] != 'text' or e[1].strip()]
        o = o[:i]
        while o and o[-1][0] == 'text' and not o[-1][1].strip():
            o.pop()
        return o + tail
    while o and o[-1][0] == 'text' and not o[-1][1].strip():
        o.pop()
    return o


def judge_html(rec, where, s, t, kw, src, got):
    if not isinstance(got, str):
        rec.violation('html: not text', where=where, src=s, tgt=t, got=repr(got)[:100])
        return
    w = Want(s, t, kw)
    a, b = norm(Events(src).ev), norm(Events(got).ev)
    want = norm([(e[0], w(e[1])) if e[0] in ('text', 'pre') else e for e in a])
    if b != want:
        i = next((i for i, (p, q) in enumerate(zip(b, want)) if p != q), min(len(b), len(want)))
        rec.violation('html', where=where, src=s, tgt=t, kw=repr(kw), markup=src[:300], original=repr(a[i:i + 1])[:200], got=repr(b[i:i + 1])[:200], expected=repr(want[i:i + 1])[:200])
        return
    rec.ok(('html', where, src, s, t))
    rec.count['html documents'] += 1
    rec.count['html text nodes converted'] += sum(e[0] in ('text', 'pre') for e in a)
    rec.count['html nodes left alone'] += sum(e[0] in ('raw', '!') for e in a)


# ---- DOCX
def runs(rng, s, t):
    o = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        x = H.escape(text(rng, s, t), quote=False)
        if k < .6:
            sp = ' xml:space="preserve"' if rng.random() < .6 else ''
            o.append('<w:r w:rsidR="00A1"><w:rPr><w:b/><w:rFonts w:ascii="%s"/></w:rPr><w:t%s>%s</w:t></w:r>' % (H.escape(x) if rng.random() < .2 else 'Arial', sp, x))
        elif k < .68:
            o.append('<w:r><w:t/></w:r>')
        elif k < .74:
            o.append('<w:r><w:tab/><w:t>%s</w:t><w:br/><w:t>%s</w:t></w:r>' % (x, H.escape(text(rng, s, t), quote=False)))
        elif k < .8:
            o.append('<w:r><w:instrText>%s</w:instrText></w:r>' % x)
        elif k < .85:
            o.append('<w:del w:id="1"><w:r><w:delText>%s</w:delText></w:r></w:del>' % x)
        elif k < .9:
            o.append('<m:oMath><m:r><m:t>%s</m:t></m:r></m:oMath>' % x)
        elif k < .95:
            o.append('<w:hyperlink r:id="rId4"><w:r><w:t>%s</w:t></w:r></w:hyperlink>' % x)
        else:
            o.append('<!-- %s --><w:bookmarkStart w:id="0" w:name="%s"/>' % ('क', 'क'))
    return ''.join(o)


def part(rng, s, t, root):
    ps = ''.join('<w:p><w:pPr><w:pStyle w:val="A"/></w:pPr>%s</w:p>' % runs(rng, s, t) for _ in range(rng.randint(1, 6)))
    if rng.random() < .3:
        ps += '<w:tbl><w:tr><w:tc><w:p>%s</w:p></w:tc></w:tr></w:tbl>' % runs(rng, s, t)
    if root == 'document':
        ps = '<w:body>%s<w:sectPr/></w:body>' % ps
    return '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<w:%s xmlns:w="%s" xmlns:m="%s" xmlns:r="%s">%s</w:%s>' % (root, W, M, R, ps, root)


def docx(rng, s, t):
    m = [('[Content_Types].xml', '<?xml version="1.0"?><Types xmlns="x"><w:t xmlns:w="%s">क</w:t></Types>' % W),
         ('_rels/.rels', '<Relationships xmlns="x"/>'), ('word/document.xml', part(rng, s, t, 'document'))]
    for n, root in (('header1', 'hdr'), ('footer2', 'ftr'), ('footnotes', 'footnotes'), ('endnotes', 'endnotes'), ('comments', 'comments'), ('glossary/document', 'document')):
        if rng.random() < .5:
            m.append(('word/%s.xml' % n, part(rng, s, t, root)))
    m.append(('word/_rels/document.xml.rels', '<Relationships xmlns="x"><!-- क --></Relationships>'))
    m.append(('word/styles.xml', '<w:styles xmlns:w="%s"><w:style w:styleId="क"><w:name w:val="क ख"/></w:style></w:styles>' % W))
    if rng.random() < .6:
        m.append(('word/media/image1.png', bytes(rng.randrange(256) for _ in range(rng.randint(1, 4000)))))
    m.append(('docProps/core.xml', '<c xmlns="y"><t>क</t><w:t xmlns:w="%s">क</w:t></c>' % W))
    m.append(('customXml/item1.xml', '<c><w:t xmlns:w="%s">क ख</w:t></c>' % W))
    if rng.random() < .4:
        rng.shuffle(m)
    f = io.BytesIO()
    with zipfile.ZipFile(f, 'w') as z:
        for n, x in m:
            i = zipfile.ZipInfo(n, date_time=(2001, 2, 3, 4, 5, 6))
            i.compress_type = rng.choice((zipfile.ZIP_DEFLATED, zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED))
            i.external_attr = 0o644 << 16
            z.writestr(i, x)
    return f.getvalue()


def flat(x):
    """Elements of an XML document in order: tag, attributes, text, tail."""
    p = ET.XMLParser(target=ET.TreeBuilder(insert_comments=True))
    return [(e.tag if isinstance(e.tag, str) else '!', tuple(sorted(e.attrib.items())), e.text or '', e.tail or '') for e in ET.fromstring(x, parser=p).iter()]


def judge_docx(rec, where, s, t, kw, src, got):
    w = Want(s, t, kw)
    try:
        a, b = zipfile.ZipFile(io.BytesIO(src)), zipfile.ZipFile(io.BytesIO(got))
        names = [(i.filename, i.compress_type, i.date_time) for i in a.infolist()], [(i.filename, i.compress_type, i.date_time) for i in b.infolist()]
    except Exception as e:
        rec.violation('docx: not readable', where=where, src=s, tgt=t, error=repr(e)[:200])
        return
    if names[0] != names[1]:
        rec.violation('docx: members', where=where, src=s, tgt=t, got=repr(names[1])[:300], expected=repr(names[0])[:300])
        return
    for i in a.infolist():
        n = i.filename
        x, y = a.read(n), b.read(n)
        if not (n.startswith('word/') and n.endswith('.xml')):
            if x != y:
                rec.violation('docx: another part was changed', where=where, part=n, src=s, tgt=t)
                return
            rec.count['docx parts left alone'] += 1
            continue
        want = []
        for e in flat(x):
            if e[0] == '{%s}t' % W and e[2]:
                e = (e[0], e[1], w(e[2]), e[3])
                rec.count['docx text runs converted'] += 1
            want.append(e)
        try:
            f = flat(y)
        except Exception as e:
            rec.violation('docx: part not readable', where=where, part=n, src=s, tgt=t, error=repr(e)[:200])
            return
        if f != want:
            k = next((k for k, (p, q) in enumerate(zip(f, want)) if p != q), min(len(f), len(want)))
            rec.violation('docx', where=where, part=n, src=s, tgt=t, kw=repr(kw), got=repr(f[k:k + 1])[:300], expected=repr(want[k:k + 1])[:300])
            return
    rec.ok(('docx', where, hashlib.sha256(src).digest(), s, t))
    rec.count['docx documents'] += 1


# ---- paths
NAMES = ['a', 'my file', 'ver.1.2', 'notes_', 'काव्य', 'x-y', 'a.b', 'UPPER', "o'k", '%s', 'a&b', '.hid']
DIRS = ['', '', 'd', 'd.1/e', 'sub dir', 'ग']


def path(rng, sc, ext):
    d = rng.choice(DIRS)
    if d:
        os.makedirs(os.path.join(sc.d, d), exist_ok=True)
    p = os.path.join(d, rng.choice(NAMES) + ext)
    return p


def call(rec, sc, rng, s, t, kw, p, data, out, kind):
    """Write the input, convert it, and judge everything but the content."""
    F = mod()
    full = os.path.join(sc.d, p)
    with open(full, 'wb') as f:
        f.write(data)
    if rng.random() < .3:        # an older, longer result
        with open(os.path.join(sc.d, out), 'wb') as f:
            f.write(b'old ' * 20000)
    st = sc.state()
    arg = full if rng.random() < .5 else rng.choice(('', './')) + p
    po = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    so = io.StringIO()
    try:
        with contextlib.redirect_stdout(so):
            if not kw['post_options'] and not kw['pre_options'] and rng.random() < .5:
                if kw['nativize'] and rng.random() < .5:
                    F.process(s, t, arg)
                else:
                    F.process(s, t, arg, kw['nativize'])
            elif rng.random() < .5:
                F.process(s, t, arg, **po)
            else:
                F.process(s, t, arg, po['nativize'], po['pre_options'], po['post_options'])
    except core.Hang:
        raise
    except Exception as e:
        rec.violation('raised', src=s, tgt=t, file=p, kw=repr(kw), data=repr(data[:200]), error=repr(e)[:300])
        return None
    sc.fds.append(fds())
    if {k: po[k] for k in kw} != kw:
        rec.violation('an argument was changed', src=s, tgt=t, file=p, kw=repr(kw), after=repr(po))
    now = sc.state()
    ch = sorted(k for k in set(st) | set(now) if st.get(k) != now.get(k) and k != out)
    if ch or out not in now:
        rec.violation('other files', src=s, tgt=t, file=p, expected=out, exists=out in now, changed=ch)
        return None
    if os.path.basename(out) not in so.getvalue():
        rec.violation('the file created is not named', src=s, tgt=t, file=p, printed=so.getvalue()[:200])
    rec.count['files written, and nothing else'] += 1
    with open(os.path.join(sc.d, out), 'rb') as f:
        return f.read()


def txt(rng, s, t):
    k = rng.random()
    if k < .05:
        return ''
    if k < .12:
        return '\n'.join(text(rng, s, t) for _ in range(400))
    x = '\n'.join(text(rng, s, t) for _ in range(rng.randint(1, 12))) + rng.choice(('', '\n', '\n\n'))
    return ('\ufeff' if rng.random() < .1 else '') + x


def plain(rec, a):
    rng = core.rng('C18t', a)
    with Scratch(rec) as sc:
        for _ in range(8):
            s, t, kw = one(rng)
            x = txt(rng, s, t).replace('\r', '')
            p = path(rng, sc, rng.choice(('.txt', '.txt', '.txt', '.text.txt')))
            b, e = os.path.splitext(p)
            r = call(rec, sc, rng, s, t, kw, p, x.encode('utf-8'), '%s_%s%s%s' % (b, s, t, e), 'txt')
            if r is None:
                continue
            want = Want(s, t, kw)(x)
            try:
                g = r.decode('utf-8')
            except UnicodeDecodeError as er:
                rec.violation('txt: not UTF-8', src=s, tgt=t, text=x[:200], got=repr(r[:200]))
                continue
            if g.replace('\r\n', '\n').replace('\r', '\n') != want.replace('\r\n', '\n').replace('\r', '\n'):
                rec.violation('txt', src=s, tgt=t, kw=repr(kw), text=x[:300], got=g[:300], expected=want[:300])
                continue
            rec.ok(('txt', x, s, t, repr(kw)))
            rec.count['text files'] += 1
        # CRLF: the same lines
        s, t, kw = one(rng)
        x = txt(rng, s, t).replace('\r', '')
        r = call(rec, sc, rng, s, t, kw, 'crlf.txt', x.replace('\n', '\r\n').encode('utf-8'), 'crlf_%s%s.txt' % (s, t), 'txt')
        if r is not None:
            if r.decode('utf-8', 'replace').replace('\r\n', '\n') != Want(s, t, kw)(x):
                rec.violation('txt with CRLF', src=s, tgt=t, kw=repr(kw), text=x[:300], got=repr(r[:300]))
            rec.ok(('crlf', x, s, t))


def pages(rec, a):
    rng = core.rng('C18h', a)
    F = mod()
    with Scratch(rec) as sc:
        for _ in range(8):
            s, t, kw = one(rng)
            d = htmldoc(rng, s, t)
            if rng.random() < .25:
                try:
                    g = F.convert_html(s, t, d, kw['nativize'], kw['pre_options'], kw['post_options'], True)
                except Exception as e:
                    rec.violation('raised', src=s, tgt=t, markup=d[:300], error=repr(e)[:300])
                    continue
                judge_html(rec, 'given as text', s, t, kw, d, g)
                continue
            p = path(rng, sc, rng.choice(('.html', '.htm')))
            b, e = os.path.splitext(p)
            r = call(rec, sc, rng, s, t, kw, p, d.encode('utf-8'), '%s_%s%s%s' % (b, s, t, e), 'html')
            if r is not None:
                try:
                    g = r.decode('utf-8')
                except UnicodeDecodeError:
                    rec.violation('html: not UTF-8', src=s, tgt=t, got=repr(r[:200]))
                    continue
                judge_html(rec, 'file', s, t, kw, d, g)


def word(rec, a):
    rng = core.rng('C18d', a)
    F = mod()
    with Scratch(rec) as sc:
        for _ in range(6):
            s, t, kw = one(rng)
            d = docx(rng, s, t)
            if rng.random() < .25:
                try:
                    g = F.convert_docx(s, t, base64.b64encode(d), kw['nativize'], kw['pre_options'], kw['post_options'], True)
                    g = g.getvalue() if hasattr(g, 'getvalue') else g
                except Exception as e:
                    rec.violation('raised', src=s, tgt=t, what='docx as base64', error=repr(e)[:300])
                    continue
                judge_docx(rec, 'base64', s, t, kw, d, g)
                continue
            p = path(rng, sc, '.docx')
            b, e = os.path.splitext(p)
            r = call(rec, sc, rng, s, t, kw, p, d, '%s_%s_%s%s' % (b, s, t, e), 'docx')
            if r is not None:
                judge_docx(rec, 'file', s, t, kw, d, r)


def others(rec, a):
    """What is no file, or no such file, is warned about; the extension tells
    the kind, whatever else the path says."""
    rng = core.rng('C18o', a)
    F = mod()
    with Scratch(rec) as sc:
        for n in ('x.pdf', 'x.doc', 'x', 'x.tx', 'x.md', 'x.odt', 'x.json', 'missing.txt', 'missing.html', 'missing.docx', '', 'dir.txt'):
            if n == 'dir.txt':
                os.makedirs('dir.txt')
            elif n and 'missing' not in n:
                with open(n, 'w') as f:
                    f.write('ka')
            st = sc.state()
            with warnings.catch_warnings(record=True) as ws, contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter('always')
                try:
                    F.process('HK', 'Devanagari', n)
                except Exception as e:
                    rec.violation('raised', file=n, error=repr(e)[:200])
                    continue
            if sc.state() != st:
                rec.violation('something was written', file=n)
            elif not any('file' in str(w.message).lower() for w in ws):
                rec.violation('no warning', file=n)
            else:
                rec.ok(('other', n))
                rec.count['not converted, with a warning'] += 1
        s, t, kw = 'Devanagari', rng.choice(['IAST', 'Tamil', 'Telugu', 'HK']), {'nativize': False, 'post_options': [], 'pre_options': []}
        for n, k in (('a.txt.docx', 'd'), ('b.docx.txt', 't'), ('c.txt.html', 'h'), ('t.txt/e.docx', 'd'), ('t.docx/f.html', 'h'), ('t.html/g.txt', 't')):
            os.makedirs(os.path.dirname(n) or '.', exist_ok=True)
            b, e = os.path.splitext(n)
            if k == 'd':
                d = docx(rng, s, t)
                r = call(rec, sc, rng, s, t, kw, n, d, '%s_%s_%s%s' % (b, s, t, e), 'docx')
                r is None or judge_docx(rec, 'file', s, t, kw, d, r)
            elif k == 'h':
                d = htmldoc(rng, s, t)
                r = call(rec, sc, rng, s, t, kw, n, d.encode(), '%s_%s%s%s' % (b, s, t, e), 'html')
                r is None or judge_html(rec, 'file', s, t, kw, d, r.decode())
            else:
                r = call(rec, sc, rng, s, t, kw, n, 'कमल'.encode(), '%s_%s%s%s' % (b, s, t, e), 'txt')
                if r is not None and r.decode() != Want(s, t, kw)('कमल'):
                    rec.violation('txt', file=n, got=repr(r[:200]))


def run(ctx):
    boot.get()
    mod()
    ctx.rule = 'files converted, read by independent readers and compared node by node with the conversion of their texts'
    ctx.map(__name__, 'others', range(ctx.n(8, 60)))
    ctx.map(__name__, 'plain', range(ctx.n(60, 800)))
    ctx.map(__name__, 'pages', range(ctx.n(90, 1100)))
    ctx.map(__name__, 'word', range(ctx.n(90, 1100)))
    ctx.minimum = 1000
