"""What a reader of the PDF sees: words with position and style, graphics,
images. Nothing here knows how pdfme lays things out."""
import hashlib
import re

from . import pdfread


class Word:
    """A run of non-space characters on one line."""
    __slots__ = ('t', 'page', 'x', 'y', 'x1', 'segs', 'par', 'order', 'size', 'cx')

    def __repr__(self):
        return '%r@p%d(%.1f,%.1f)' % (self.t, self.page, self.x, self.y)


def words_of(events, page=0):
    """Words in painting order. A word ends at a space, at a gap or at a new
    line or text object."""
    out = []
    cur = None
    prev = None
    for e in events:
        if e['k'] != 'text':
            continue
        cont = (prev is not None and prev['par'] == e['par'] and
                abs(prev['y'] - e['y']) < 0.002 and
                abs(prev['x'] + prev['w'] - e['x']) < 0.02)
        if not cont:
            cur = None
        x = e['x']
        font = e['fontobj']
        style = (e['font'], e['size'], e['color'], round(e['rise'], 3))
        start = 0
        t = e['t']
        ws = e['cw']
        for i, ch in enumerate(t):
            w = ws[i]
            if ch == ' ':
                cur = None
            else:
                if cur is None:
                    cur = Word()
                    cur.t = ''
                    cur.page = page
                    cur.x = x
                    cur.y = e['y']
                    cur.segs = []
                    cur.cx = [x]
                    cur.par = e['par']
                    cur.order = len(out)
                    cur.size = e['size']
                    out.append(cur)
                cur.t += ch
                cur.x1 = x + w
                cur.cx.append(x + w)
                cur.size = max(cur.size, e['size'])
                if cur.segs and cur.segs[-1][1] == style:
                    cur.segs[-1][0] += ch
                else:
                    cur.segs.append([ch, style])
            x += w
        prev = e
    return out


class View:
    """A read document."""

    def __init__(self, data):
        try:
            self.pdf = pdfread.read(data)
        except pdfread.PdfError:
            raise
        except Exception as e:  # the bytes led the reader astray
            raise pdfread.PdfError('unreadable: %s: %s' % (type(e).__name__, e))
        self.pages = self.pdf.pages
        self.words = []
        self.lines = []
        self.rects = []
        self.images = []
        for i, p in enumerate(self.pages):
            ws = words_of(p.events, i)
            p.words = ws
            self.words += ws
            for e in p.events:
                e['page'] = i
                if e['k'] == 'line':
                    self.lines.append(e)
                elif e['k'] == 'rect':
                    self.rects.append(e)
                elif e['k'] == 'image':
                    self.images.append(e)
        for i, w in enumerate(self.words):
            w.order = i


UUID = re.compile(r'^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$')


def r3(v):
    if isinstance(v, (list, tuple)):
        return tuple(r3(x) for x in v)
    return round(v, 3) if isinstance(v, float) else v


def canon(v):
    """What a document shows, without the names that are random by design."""
    dests = dict(v.pdf.dests)
    auto = {k for k in dests if UUID.match(k)}
    pages = []
    for p in v.pages:
        ev = []
        for e in p.events:
            if e['k'] == 'text':
                ev.append(('text', e['t'], r3(e['x']), r3(e['y']), e['font'], r3(e['size']),
                           r3(e['color']), r3(e['rise'])))
            elif e['k'] == 'line':
                ev.append(('line', r3(e['p']), r3(e['w']), r3(e['color']), repr(e['dash'])))
            elif e['k'] == 'rect':
                ev.append(('rect', r3(e['x']), r3(e['y']), r3(e['w']), r3(e['h']),
                           r3(e['color'])))
            else:
                ev.append((e['k'], r3(e['x']), r3(e['y']), r3(e['w']), r3(e['h']), e['iw'],
                           e['ih'], e['cs'], e['filter'],
                           hashlib.blake2b(e['data'], digest_size=8).hexdigest()))
        pages.append((r3(p.box), ev, [(k, '' if t in auto else t, r3(r))
                                      for k, t, r in p.annots]))

    def tree(items):
        return [(o['title'], '' if o['dest'] in auto else o['dest'], r3(dests.get(o['dest'], ())),
                 o['open'], tree(o['kids'])) for o in items]
    return {'pages': pages, 'dests': sorted((('' if k in auto else k), r3(d))
                                            for k, d in v.pdf.dests),
            'outlines': tree(v.pdf.outlines)}


def difference(a, b):
    """The first difference between two canonical documents, or None"""
    if a == b:
        return None
    if len(a['pages']) != len(b['pages']):
        return '%d pages instead of %d' % (len(b['pages']), len(a['pages']))
    for i, (p, q) in enumerate(zip(a['pages'], b['pages'])):
        if p == q:
            continue
        if p[0] != q[0]:
            return 'page %d has the box %r instead of %r' % (i + 1, q[0], p[0])
        for x, y in zip(p[1] + [None], q[1] + [None]):
            if x != y:
                return 'page %d shows %r where %r is due' % (i + 1, y, x)
        return 'page %d has the links %r instead of %r' % (i + 1, q[2][:6], p[2][:6])
    for k in ('dests', 'outlines'):
        if a[k] != b[k]:
            return 'the %s are %r instead of %r' % (k, b[k][:6], a[k][:6])


def image_info(data):
    """(width, height, mean colour) of JPEG bytes."""
    import io
    from PIL import Image
    try:
        with Image.open(io.BytesIO(data)) as im:
            im.load()
            size = im.size
            small = im.convert('RGB').resize((1, 1))
            return size, small.getpixel((0, 0))
    except Exception as e:
        raise pdfread.PdfError('embedded image is damaged: %s' % e)
