"""A stage on which several elements are served rectangles in turns."""
import io

from . import pdfread, world
from .core import Violation, Invalid

_made = {}


def drawn(spec):
    """The picture of a spec, before it is put into a file."""
    from PIL import Image
    w, h = spec['size']
    if not (1 <= w <= 400 and 1 <= h <= 400):
        raise Invalid('image size')
    a = tuple(spec['color'])
    im = Image.new('RGB', (w, h), a)
    if spec.get('fill') == 'gradient':
        px = im.load()
        for x in range(w):
            for y in range(h):
                px[x, y] = (int(255 * x / w), int(255 * y / h), (a[2] + x + y) % 256
                            if w + h < 60 else a[2])
    elif spec.get('fill') == 'halves':
        im.paste(tuple(255 - c for c in a), (0, 0, (w + 1) // 2, (h + 1) // 2))
    mode = spec.get('mode', 'RGB')
    if mode == '1':
        return im.convert('1', dither=0)
    if mode == 'P':
        return im.convert('P', dither=0)
    if mode == 'I;16':
        return im.convert('L')
    return im.convert(mode)


def picture(spec):
    """The bytes of an image file."""
    key = repr(sorted(spec.items()))
    if key not in _made:
        im = drawn(spec)
        opts = spec.get('opts', {})
        b = io.BytesIO()
        if spec['kind'] in ('jpg', 'jpeg'):
            kw = {}
            if opts.get('progressive'):
                kw['progressive'] = True
            if opts.get('quality'):
                kw['quality'] = opts['quality']
            im.save(b, 'JPEG', **kw)
            data = b.getvalue()
            for k in ('thumb', 'comment'):
                if opts.get(k):   # a small picture with an end of its own inside
                    if k == 'thumb':
                        t = io.BytesIO()
                        im.resize((4, 4)).convert('L').save(t, 'JPEG')
                        t = t.getvalue()
                        if opts[k] == 'bare':   # without its first tables
                            t = t[t.index(b'\xff\xc0'):]
                        body = b'\xff\xe1', b'Exif\0\0' + t
                    else:
                        body = b'\xff\xfe', b'a comment \xff\xd9 with \xff\xc0 in it'
                    seg = body[0] + (len(body[1]) + 2).to_bytes(2, 'big') + body[1]
                    data = data[:2] + seg + data[2:]
            if opts.get('tail'):
                data += b'\0' * opts['tail']
        else:
            if spec.get('mode') == 'I;16':
                from PIL import Image
                big = Image.new('I;16', im.size)
                px, q = big.load(), im.load()
                for x in range(im.size[0]):
                    for y in range(im.size[1]):
                        px[x, y] = q[x, y] * 257
                im = big
            im.save(b, 'PNG')
            data = b.getvalue()
        _made[key] = data
    return _made[key]


def gen_cursor(rng):
    """How an element gets its place, and where the cursor goes after it."""
    out = {}
    if rng.random() < 0.25:
        out['at'] = True
    if rng.random() < 0.3:
        out['move'] = rng.choice(['next', 'bottom', 'none'])
    return out


def placed(pdf, r, how, go):
    """go(**kw) is to place an element in the rectangle r, that it is told or that begins at the
    cursor; afterwards the cursor is where it is asked to be."""
    x, y, w, h = r
    kw = {'width': w, 'height': h}
    if how.get('at'):
        pdf.page.x = x
        pdf.page.y = y
        if abs(pdf.page.width - pdf.page.margin_right - x - w) < 1e-9:
            del kw['width']       # up to the margin
        if abs(pdf.page.height - pdf.page.margin_bottom - y - h) < 1e-9:
            del kw['height']
    else:
        kw.update(x=x, y=y)
    move = how.get('move')
    if move is not None:
        if move not in ('next', 'bottom', 'none'):
            raise Invalid('move')
        kw['move'] = move
    page = pdf.page
    el = go(**kw)
    if pdf.page is not page:
        raise Violation('cursor', 'the page changed while one rectangle was filled')
    dx, dy = page.x - x, page.y - y
    want = w if move == 'next' else 0
    if abs(dx - want) > 1e-6:
        raise Violation('cursor', 'move=%r moves the cursor %g to the right, not %g' % (
            move, dx, want))
    want = el.current_height if move in (None, 'bottom') else 0
    if abs(dy - want) > 1e-6 or dy > h + 1e-6:
        raise Violation('cursor', 'move=%r moves the cursor %g down, not %g (room %g)' % (
            move, dy, want, h))
    return el


def load_images(files):
    """Put the image files of a scenario on the simulated disk.
    -> {path: {'size', 'match', 'data'}}"""
    out = {}
    for path, spec in files.items():
        data = picture(spec)
        world.disk.files[path] = data
        out[path] = {'size': spec['size'], 'data': data, 'match': matcher(spec, data)}
    return out


def matcher(spec, data):
    cache = {}

    def match(e):
        if [e['iw'], e['ih']] != list(spec['size']):
            return False
        k = e['data'], e['cs'], e['filter'], e['bpc'], repr(e['decode'])
        if k not in cache:
            cache[k] = same(spec, data, e)
        return cache[k]
    return match


BANDS = {1: 'DeviceGray', 3: 'DeviceRGB', 4: 'DeviceCMYK'}


def same(spec, data, e):
    """What the event shows is the picture of the spec"""
    from PIL import Image, ImageChops
    if spec['kind'] in ('jpg', 'jpeg'):   # byte for byte, but for what follows the picture
        tail = spec.get('opts', {}).get('tail', 0)
        if not (data.startswith(e['data']) and len(e['data']) >= len(data) - tail):
            return False
    if 'DCTDecode' not in e['filter'] or e['bpc'] != 8:
        return False
    try:
        with Image.open(io.BytesIO(e['data'])) as im:
            im.load()
            got = im.copy()
            adobe = 'adobe' in im.info
    except Exception as x:
        raise pdfread.PdfError('embedded image is damaged: %s' % x)
    if list(got.size) != list(spec['size']) or \
            e['cs'].lstrip('/') != BANDS.get(len(got.getbands())):
        return False
    d = e['decode']
    n = len(got.getbands())
    flip = [1, 0] * n
    if d is not None and [float(x) for x in d] not in ([0, 1] * n, flip):
        return False
    inverted = d is not None and [float(x) for x in d] == flip
    if n == 4 and adobe:
        inverted = not inverted   # Pillow has undone Adobe's inversion already
    if inverted:
        got = ImageChops.invert(got)
    a = got.convert('RGB')
    if spec['kind'] in ('jpg', 'jpeg'):   # lossy: as Pillow shows the file itself
        with Image.open(io.BytesIO(data)) as im:
            b = im.convert('RGB')
    else:
        b = drawn(spec).convert('RGB')
    g = (min(4, a.size[0]), min(4, a.size[1]))
    p, q = (list(i.convert('L').resize(g, Image.BOX).tobytes()) for i in (a, b))
    if any(abs(x - y) > 30 for x, y in zip(p, q)):
        return False
    p, q = (i.resize((1, 1), Image.BOX).getpixel((0, 0)) for i in (a, b))
    return all(abs(x - y) <= 30 for x, y in zip(p, q))


class Stage:
    """Rectangles are handed out down the pages, never overlapping."""

    def __init__(self, pdf, size, margin, log):
        self.pdf = pdf
        self.W, self.H = size
        self.m = margin
        self.log = log
        self.y = None

    def page(self):
        self.pdf.add_page()
        self.y = self.m

    def rect(self, dx, w, h):
        """-> x, y, w, h on the current page, a new one when it is full"""
        if self.y is None or self.y + h > self.H - self.m:
            self.page()
        y = self.y
        h = min(h, self.H - self.m - y)
        self.y += h + 6
        dx = min(dx, self.W - 2 * self.m - w)
        if dx < 0:
            raise Invalid('width')
        return self.m + dx, y, w, h

    def whole(self):
        self.page()
        r = (self.m, self.m, self.W - 2 * self.m, self.H - 2 * self.m)
        self.y = self.H
        return r

    def box(self, r):
        """a rectangle as the reader of the PDF sees it"""
        x, y, w, h = r
        return (len(self.pdf.pages) - 1, x, self.H - y, w, h)
