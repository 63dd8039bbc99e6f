"""Font files for the simulated disk, made from the one in the repository, and
what a reader of a PDF can know about a font embedded in it."""
import hashlib
import io
import os
import re

from . import pdfread
from .core import REPO, Violation

LATIN = ''.join(chr(c) for c in list(range(0x20, 0x7f)) + list(range(0xa1, 0x100)))
GREEK = '\u0391\u0392\u0393\u0398\u03a0\u03b1\u03b2\u03b3\u03b8\u03bb\u03c0\u03c3'
CYRILLIC = '\u0410\u0411\u0414\u0416\u042f\u0430\u0431\u0434\u0436\u044f\u0451'
HIGH = '\U0001d400\U0001d401\U0001f600\U00020000'
MISSING = '\u4e2d'     # in none of the fonts
BLANK = '\ufffd'       # what is read for it


def _ps(f, name):
    f['name'].setName(name, 6, 3, 1, 0x409)


def _only(f, *ids):
    n = f['name']
    n.names = [r for r in n.names if r.nameID in ids]


def _reverse(f):
    _only(f, 0, 1, 2, 3, 4, 6, 7, 8, 9, 13)


def _scale(f, k):
    h = f['hmtx']
    for g, (adv, lsb) in list(h.metrics.items()):
        h.metrics[g] = (int(adv * k), lsb)


def _high(f, only=False):
    from fontTools.ttLib.tables._c_m_a_p import CmapSubtable
    s = CmapSubtable.newSubtable(12)
    s.platformID, s.platEncID, s.language = 3, 10, 0
    s.cmap = dict(f.getBestCmap())
    for i, c in enumerate(HIGH):
        s.cmap[ord(c)] = s.cmap[ord('MQWZ'[i])]
        if i < 4:
            del s.cmap[ord('MQWZ'[i])]
    if only:
        f['cmap'].tables = []
    f['cmap'].tables.append(s)


def _upm(f, n):
    from fontTools.ttLib.scaleUpem import scale_upem
    scale_upem(f, n)


def v_plain(f):
    pass


def v_wide(f):
    _scale(f, 1.25)
    _ps(f, 'Wide-Regular')


def v_narrow(f):
    _scale(f, 0.7)
    _ps(f, 'Narrow')


def v_few(f):
    _only(f, 1, 2, 4, 6)
    _scale(f, 0.9)


def v_order(f):
    _reverse(f)
    _scale(f, 1.1)


def v_nameless(f):
    _only(f, 1, 2, 3)
    _scale(f, 0.8)


def v_odd(f):
    _ps(f, 'Odd (name) [1]/2 #%')
    _scale(f, 1.05)


def v_noos2(f):
    del f['OS/2']
    _scale(f, 0.95)


def v_os2old(f):
    f['OS/2'].version = 1
    f['OS/2'].fsSelection = 64
    _scale(f, 1.15)


def v_upm1000(f):
    _upm(f, 1000)
    _scale(f, 0.87)


def v_upm256(f):
    _upm(f, 256)


def v_high(f):
    _high(f)
    _scale(f, 1.02)


def v_highonly(f):
    _high(f, True)
    _scale(f, 0.93)


def v_slanted(f):
    f['post'].italicAngle = -12.0
    f['OS/2'].usWeightClass = 700
    _ps(f, 'Slanted-BoldItalic')
    _scale(f, 0.98)


def v_mono(f):
    f['post'].isFixedPitch = 1
    h = f['hmtx']
    for g, (adv, lsb) in list(h.metrics.items()):
        h.metrics[g] = (1200, lsb)
    _ps(f, 'Mono')


def v_restricted(f):
    f['OS/2'].fsType = 2


def v_swapped(f):
    """its letters look like others: a map of characters of its own"""
    for t in f['cmap'].tables:
        if t.isUnicode():
            t.cmap[ord('a')], t.cmap[ord('b')] = t.cmap[ord('b')], t.cmap[ord('a')]
    _scale(f, 1.2)


def v_twins(f):
    """letters that look the same"""
    for t in f['cmap'].tables:
        if t.isUnicode():
            for a, b, c in ('\xc0\xc1q', '\xc7\xc8z', '\xcd\xcee'):
                t.cmap[ord(c)] = t.cmap[ord(b)]
                t.cmap[ord(b)] = t.cmap[ord(a)]
    _scale(f, 0.85)
    h = f['hmtx']
    for i, g in enumerate(f.getGlyphOrder()):
        h.metrics[g] = (h.metrics[g][0] + i % 7 * 10, h.metrics[g][1])


def v_sparse(f):
    """the original numbers of the glyphs"""


def v_huge(f):
    """so many glyphs that their numbers are like those of surrogates"""


VARIANTS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('v_')}
GOOD = sorted(set(VARIANTS) - {'restricted', 'huge', 'high', 'highonly'})
FILES = {}
TABLES = {}


class Tables:
    """What a font file says"""

    def __init__(self, data, k):
        from fontTools import ttLib
        f = ttLib.TTFont(io.BytesIO(data))
        self.k = k
        self.cmap = f.getBestCmap()
        self.upm = f['head'].unitsPerEm
        self.order = f.getGlyphOrder()
        self.adv = [f['hmtx'].metrics[g][0] for g in self.order]
        glyf = f['glyf']
        self.shape = [outline(glyf, g) for g in self.order]
        self.gid = {g: i for i, g in enumerate(self.order)}
        self.ps = f['name'].getDebugName(6)
        self.head = {a: getattr(f['head'], a) for a in ('xMin', 'yMin', 'xMax', 'yMax')}
        self.italic = f['post'].italicAngle
        self.fixed = bool(f['post'].isFixedPitch)
        self.ascent, self.descent = f['hhea'].ascent, f['hhea'].descent
        os2 = f.get('OS/2')
        self.cap = os2.sCapHeight if os2 is not None and os2.version > 1 else None

    def glyph(self, ch):
        return self.gid[self.cmap[ord(ch)]] if ord(ch) in self.cmap else 0


def outline(glyf, g):
    c, ends, flags = glyf[g].getCoordinates(glyf)
    return hashlib.blake2b(repr((list(c), list(ends), list(flags))).encode(),
                           digest_size=8).digest()


def prepare():
    if FILES:
        return
    from fontTools import ttLib, subset
    import logging
    logging.disable(logging.WARNING)
    src = os.path.join(REPO, 'fonts', 'OpenSans-Regular.ttf')

    def cut(text, retain):
        f = ttLib.TTFont(src, recalcTimestamp=False)
        for t in ('GDEF', 'GPOS', 'GSUB', 'STAT', 'gasp', 'fpgm', 'prep', 'cvt '):
            if t in f:
                del f[t]
        o = subset.Options()
        o.name_IDs = ['*']
        o.notdef_outline = True
        o.retain_gids = retain
        s = subset.Subsetter(o)
        s.populate(text=text)
        s.subset(f)
        return save(f)

    def save(f):
        b = io.BytesIO()
        f.save(b)
        return b.getvalue()
    small = cut(LATIN + GREEK + CYRILLIC, False)
    sparse = cut(LATIN + GREEK + CYRILLIC, True)
    for k, name in enumerate(sorted(VARIANTS)):
        f = ttLib.TTFont(io.BytesIO(sparse if name == 'sparse' else small), recalcTimestamp=False)
        if name == 'huge':
            f = huge(f)
        VARIANTS[name](f)
        f['head'].fontRevision = float(100 + k)
        FILES[name] = save(f)
        TABLES[name] = Tables(FILES[name], name)
    logging.disable(logging.NOTSET)


def huge(f):
    """The same glyphs with numbers from 0xd7f0 on"""
    from fontTools.ttLib.tables._g_l_y_f import Glyph
    order = list(f.getGlyphOrder())
    glyf, hmtx = f['glyf'], f['hmtx']
    glyf.glyphs, [t.cmap for t in f['cmap'].tables]     # (read them now)
    for g in order:
        glyf[g].expand(glyf)
    gap = ['gap%d' % i for i in range(0xd7f0 - 20)]
    new = order[:20] + gap + order[20:]
    for g in gap:
        glyf.glyphs[g] = Glyph()
        hmtx.metrics[g] = (500, 0)
    f.setGlyphOrder(new)
    glyf.setGlyphOrder(new)
    f['post'].formatType = 3.0
    f['maxp'].numGlyphs = len(new)
    return f


_seen = {}


def identify(font, desc, fd, d):
    """-> the variant a font in a PDF was made of; raises when it isn't all
    the same. Called by the reader."""
    from fontTools import ttLib
    body = font.program
    h = hashlib.blake2b(body).digest()
    try:
        if h not in _seen:
            f = ttLib.TTFont(io.BytesIO(body))
            glyf = f['glyf']
            _seen[h] = (round(f['head'].fontRevision) - 100, f, glyf, f.getGlyphOrder())
        k, f, glyf, order = _seen[h]
    except Exception as e:
        raise pdfread.PdfError('the embedded font program is damaged: %s' % e)
    names = sorted(VARIANTS)
    if not 0 <= k < len(names):
        raise pdfread.PdfError('the embedded font program is none of the files used')
    name = names[k]
    t = TABLES[name]

    def bad(what, got, want):
        raise Violation('font-' + what, 'the %s of the font %s is %r, its file says %r' % (
            what, name, got, want))
    base = font.base
    if not base or re.search(r'[^!-~]|[][()<>{}/%#]', base):
        bad('name', base, t.ps)
    if t.ps and re.fullmatch(r'[^][()<>{}/%# ]+', t.ps) and \
            re.sub('^[A-Z]{6}[+]', '', base) != t.ps:
        bad('name', base, t.ps)
    for v in (desc.get('BaseFont'), fd.get('FontName')):
        if v != base:
            bad('name', v, base)
    if desc.get('Subtype') != 'CIDFontType2' or desc.get('Type') != 'Font' or \
            fd.get('Type') != 'FontDescriptor':
        bad('type', (desc.get('Subtype'), desc.get('Type'), fd.get('Type')), 'CIDFontType2')
    if desc.get('CIDToGIDMap') not in ('Identity',):
        bad('glyph map', desc.get('CIDToGIDMap'), 'Identity')
    scale = 1000 / t.upm

    def near(a, b, what):
        if not isinstance(a, (int, float)) or abs(a - b * scale) > 0.51:
            bad(what, a, b * scale)
    box = fd.get('FontBBox')
    if not isinstance(box, list) or len(box) != 4:
        bad('box', box, t.head)
    for v, a in zip(box, ('xMin', 'yMin', 'xMax', 'yMax')):
        near(v, t.head[a], 'box')
    near(fd.get('Ascent'), t.ascent, 'ascent')
    near(fd.get('Descent'), t.descent, 'descent')
    if t.cap is not None:
        near(fd.get('CapHeight'), t.cap, 'height of capitals')
    elif not isinstance(fd.get('CapHeight'), (int, float)):
        bad('height of capitals', fd.get('CapHeight'), 'a number')
    if not isinstance(fd.get('StemV'), (int, float)):
        bad('stems', fd.get('StemV'), 'a number')
    if fd.get('ItalicAngle') != t.italic:
        bad('slant', fd.get('ItalicAngle'), t.italic)
    fl = fd.get('Flags')
    if not isinstance(fl, int) or bool(fl & 4) == bool(fl & 32) or bool(fl & 1) != t.fixed or \
            bool(fl & 64) != (t.italic != 0):
        bad('flags', fl, (t.fixed, t.italic))
    font.file = name
    font.inside = (f, glyf, order)
    return name


def check_used(fonts, log):
    """Each glyph a document shows is the one of its character."""
    for font in fonts:
        if not getattr(font, 'file', None):
            continue
        t = TABLES[font.file]
        f, glyf, order = font.inside
        log.n('fonts read')
        for g in sorted(font.used):
            ch = chr(font.map[g]) if g in font.map else None
            log.n('glyphs read')
            want = t.glyph(ch) if ch is not None else 0
            what = 'U+%04X' % ord(ch) if ch else 'a missing character'
            if g >= len(order):
                raise Violation('no-glyph', '%s is shown with glyph %d, which is not in the '
                                'embedded font %s' % (what, g, font.file))
            if outline(glyf, order[g]) != t.shape[want]:
                raise Violation('wrong-glyph', '%s is shown with the glyph %d of the font %s, '
                                'which has another shape' % (what, g, font.file))
            if g not in font.w or abs(font.w[g] - t.adv[want] * 1000 / t.upm) > 0.01:
                raise Violation('wrong-width', '%s of the font %s has the width %r, its file says '
                                '%r' % (what, font.file, font.w.get(g),
                                        t.adv[want] * 1000 / t.upm))
