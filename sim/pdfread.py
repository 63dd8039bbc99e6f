"""A small strict PDF reader, independent of pdfme.

Everything it does not accept raises PdfError: for the checks that is evidence
about the bytes pdfme wrote, never a failure of the harness.

read(data)            -> Pdf: objects, trailer, pages (each with its events)
Page.events           -> drawing events in painting order (see interpret())
"""
import json
import os
import re
import zlib


class PdfError(Exception):
    pass


class Name(str):
    __slots__ = ()

    def __repr__(self):
        return '/' + str(self)


class Ref(int):
    __slots__ = ()

    def __repr__(self):
        return 'Ref(%d)' % int(self)


class Op(str):
    __slots__ = ()

    def __repr__(self):
        return 'Op(%s)' % str(self)


class Stream:
    def __init__(self, dic, raw):
        self.dic = dic
        self.raw = raw

    def data(self):
        f = self.dic.get('Filter')
        if f is None or f == 'DCTDecode':
            return self.raw
        if f == 'FlateDecode':
            try:
                d = zlib.decompressobj()
                out = d.decompress(self.raw) + d.flush()
            except zlib.error as e:
                raise PdfError('stream does not inflate: %s' % e)
            if not d.eof or d.unused_data:
                raise PdfError('deflate stream incomplete or followed by junk')
            return out
        raise PdfError('unknown filter %r' % (f,))


WS = b'\x00\t\n\x0c\r '
TOKEN = re.compile(
    rb'(?P<ws>[\x00\t\n\x0c\r ]+|%[^\r\n]*)'
    rb'|(?P<num>[+-]?(?:\d+\.?\d*|\.\d+)(?=[\x00\t\n\x0c\r ()<>\[\]{}/%]|$))'
    rb'|(?P<name>/[^\x00\t\n\x0c\r ()<>\[\]{}/%]*)'
    rb'|(?P<dopen><<)|(?P<dclose>>>)|(?P<aopen>\[)|(?P<aclose>\])'
    rb'|(?P<hex><[0-9A-Fa-f\x00\t\n\x0c\r ]*>)'
    rb'|(?P<str>\()'
    rb'|(?P<kw>[^\x00\t\n\x0c\r ()<>\[\]{}/%]+)'
)
KEYWORDS = {b'true': True, b'false': False, b'null': None}
STR_PART = re.compile(rb'[^()\\\r]+')


class Lexer:
    def __init__(self, data, pos=0, content=False):
        self.d = data
        self.p = pos
        self.content = content

    def fail(self, msg):
        raise PdfError('%s at offset %d: %r' % (
            msg, self.p, bytes(self.d[max(0, self.p - 20):self.p + 40])))

    def next(self):
        """-> (kind, value) ; kind '' at end of data"""
        while True:
            m = TOKEN.match(self.d, self.p)
            if m is None:
                if self.p >= len(self.d):
                    return '', None
                self.fail('cannot tokenize')
            kind = m.lastgroup
            if kind == 'ws':
                self.p = m.end()
                continue
            if kind == 'str':
                return 'str', self.string()
            self.p = m.end()
            t = m.group()
            if kind == 'num':
                return 'num', (float(t) if b'.' in t else int(t))
            if kind == 'name':
                s = t[1:]
                if b'#' in s:
                    s = re.sub(rb'#([0-9A-Fa-f]{2})',
                               lambda k: bytes([int(k.group(1), 16)]), s)
                return 'name', Name(s.decode('latin'))
            if kind == 'hex':
                h = re.sub(rb'[^0-9A-Fa-f]', b'', t)
                if len(h) % 2:
                    h += b'0'
                return 'str', bytes.fromhex(h.decode())
            return kind, t

    def string(self):
        d = self.d
        p = self.p + 1
        depth = 1
        out = bytearray()
        n = len(d)
        while True:
            m = STR_PART.match(d, p)
            if m:
                out += m.group()
                p = m.end()
            if p >= n:
                self.fail('unterminated string')
            c = d[p]
            if c == 40:
                depth += 1
                out.append(c)
                p += 1
            elif c == 41:
                depth -= 1
                p += 1
                if depth == 0:
                    self.p = p
                    return bytes(out)
                out.append(c)
            elif c == 13:  # an unescaped end of line is a line feed
                out.append(10)
                p += 2 if d[p + 1:p + 2] == b'\n' else 1
            else:
                if p + 1 >= n:
                    self.fail('unterminated string')
                e = d[p + 1]
                p += 2
                if e in b'nrtbf':
                    out.append({110: 10, 114: 13, 116: 9, 98: 8, 102: 12}[e])
                elif 48 <= e <= 55:
                    k = e - 48
                    for _ in range(2):
                        if p < n and 48 <= d[p] <= 55:
                            k = k * 8 + d[p] - 48
                            p += 1
                        else:
                            break
                    out.append(k & 255)
                elif e == 13:
                    if d[p:p + 1] == b'\n':
                        p += 1
                elif e == 10:
                    pass
                else:
                    out.append(e)

    def value(self):
        kind, v = self.next()
        return self.finish(kind, v)

    def finish(self, kind, v):
        if kind in ('num', 'name', 'str'):
            if kind == 'num' and isinstance(v, int) and not self.content:
                m = REF.match(self.d, self.p)
                if m:
                    self.p = m.end()
                    if int(m.group(1)) != 0:
                        self.fail('generation is not 0')
                    return Ref(v)
            return v
        if kind == 'kw':
            if v in KEYWORDS:
                return KEYWORDS[v]
            self.fail('unexpected keyword %r' % v)
        if kind == 'aopen':
            out = []
            while True:
                kind, v = self.next()
                if kind == 'aclose':
                    return out
                if kind in ('', 'dclose'):
                    self.fail('unterminated array')
                out.append(self.finish(kind, v))
        if kind == 'dopen':
            out = {}
            while True:
                kind, v = self.next()
                if kind == 'dclose':
                    return out
                if kind != 'name':
                    self.fail('dictionary key is not a name')
                if v in out:
                    self.fail('duplicate key /%s' % v)
                out[v] = self.value()
        self.fail('unexpected token %r' % (v,))


REF = re.compile(rb'[\x00\t\n\x0c\r ]+(\d+)[\x00\t\n\x0c\r ]+R(?![^\x00\t\n\x0c\r ()<>\[\]{}/%])')


class Page:
    pass


class Pdf:
    def __init__(self):
        self.objects = {}
        self.trailer = {}
        self.pages = []
        self.dests = []
        self.outlines = []

    def get(self, v):
        seen = 0
        while isinstance(v, Ref):
            if v not in self.objects:
                raise PdfError('reference to missing object %d' % v)
            v = self.objects[v]
            seen += 1
            if seen > 50:
                raise PdfError('reference loop')
        return v


def read_file(data):
    """Structure only: header, xref, objects, trailer."""
    data = bytes(data)
    pdf = Pdf()
    if not re.match(rb'%PDF-\d\.\d[\r\n]', data):
        raise PdfError('no PDF header: %r' % data[:20])
    m = re.search(rb'startxref[\r\n ]+(\d+)[\r\n ]+%%EOF[\r\n ]*\Z', data[-200:])
    if not m:
        raise PdfError('file does not end with startxref and %%EOF')
    if data.count(b'startxref') != 1 and data.rstrip().count(b'%%EOF') != 1:
        raise PdfError('more than one end of file')
    start = int(m.group(1))
    if data[start:start + 4] != b'xref':
        raise PdfError('startxref %d does not point at the xref table' % start)
    m = re.compile(rb'xref[ ]*\r?\n0 (\d+)[ ]*\r?\n').match(data, start)
    if not m:
        raise PdfError('bad xref header')
    n = int(m.group(1))
    p = m.end()
    offsets = {}
    for i in range(n):
        e = data[p:p + 20]
        k = re.fullmatch(rb'(\d{10}) (\d{5}) ([nf])(?: \r| \n|\r\n)', e)
        if not k:
            raise PdfError('bad xref entry %d: %r' % (i, e))
        if i == 0:
            if k.group(3) != b'f' or k.group(2) != b'65535':
                raise PdfError('xref entry 0 is not the free list head')
        elif k.group(3) == b'n':
            if int(k.group(2)) != 0:
                raise PdfError('xref generation is not 0')
            offsets[i] = int(k.group(1))
        p += 20
    lx = Lexer(data, p)
    kind, v = lx.next()
    if v != b'trailer':
        raise PdfError('no trailer after %d xref entries' % n)
    pdf.trailer = lx.value()
    if not isinstance(pdf.trailer, dict):
        raise PdfError('trailer is not a dictionary')
    if pdf.trailer.get('Size') != n:
        raise PdfError('trailer Size %r, xref has %d entries'
                       % (pdf.trailer.get('Size'), n))
    kind, v = lx.next()
    if v != b'startxref':
        raise PdfError('junk between trailer and startxref')
    ends = []
    for num, off in offsets.items():
        m = re.compile(rb'(\d+)[ \r\n]+(\d+)[ \r\n]+obj\b').match(data, off)
        if not m or int(m.group(1)) != num or int(m.group(2)) != 0:
            raise PdfError('xref entry %d points at %r' % (num, data[off:off + 16]))
        lx = Lexer(data, m.end())
        v = lx.value()
        kind, t = lx.next()
        if t == b'stream':
            if not isinstance(v, dict):
                raise PdfError('stream without dictionary in object %d' % num)
            q = lx.p
            if data[q:q + 2] == b'\r\n':
                q += 2
            elif data[q:q + 1] == b'\n':
                q += 1
            else:
                raise PdfError('stream keyword not followed by end of line')
            ln = v.get('Length')
            if type(ln) is not int:
                raise PdfError('stream %d has no direct Length' % num)
            raw = data[q:q + ln]
            k = re.compile(rb'\r?\n?endstream\b').match(data, q + ln)
            if len(raw) != ln or not k:
                raise PdfError('stream %d: endstream is not %d bytes in' % (num, ln))
            lx.p = k.end()
            v = Stream(v, raw)
            kind, t = lx.next()
        if t != b'endobj':
            raise PdfError('object %d is not closed by endobj but %r' % (num, t))
        pdf.objects[num] = v
        ends.append((off, lx.p, num))
    # objects must tile the body: whatever lies between them is white space
    ends.sort()
    at = None
    for off, end, num in ends:
        if at is not None and off < at:
            raise PdfError('object %d overlaps the one before it' % num)
        if at is not None and data[at:off].strip(WS):
            raise PdfError('bytes outside any object before object %d' % num)
        at = end
    if at is not None and data[at:start].strip(WS):
        raise PdfError('bytes outside any object before the xref table')
    head = data[:ends[0][0]] if ends else b''
    for line in head.splitlines():
        if line and not line.startswith(b'%'):
            raise PdfError('junk before the first object')
    for num, v in pdf.objects.items():
        check_refs(pdf, v, num)
    check_refs(pdf, pdf.trailer, 'trailer')
    return pdf


def check_refs(pdf, v, where):
    stack = [v]
    while stack:
        v = stack.pop()
        if isinstance(v, Ref):
            if v not in pdf.objects:
                raise PdfError('object %s refers to missing object %d' % (where, v))
        elif isinstance(v, dict):
            stack.extend(v.values())
        elif isinstance(v, list):
            stack.extend(v)
        elif isinstance(v, Stream):
            stack.extend(v.dic.values())


METRICS = None
IDENTIFY = None     # what tells embedded fonts apart


def metrics():
    global METRICS
    if METRICS is None:
        with open(os.path.join(os.path.dirname(__file__), 'metrics.json')) as f:
            METRICS = json.load(f)
    return METRICS


class Font:
    def __init__(self, pdf, ref):
        d = pdf.get(ref)
        if not isinstance(d, dict) or d.get('Type') != 'Font':
            raise PdfError('font resource is not a font: %r' % (d,))
        self.base = str(d.get('BaseFont'))
        self.sub = str(d.get('Subtype'))
        if self.sub == 'Type1':
            w = metrics().get(self.base)
            if w is None:
                raise PdfError('not a standard font: %s' % self.base)
            self.w = w
            self.two = False
            own = self.base in ('Symbol', 'ZapfDingbats')
            if d.get('Encoding') != (None if own else 'WinAnsiEncoding'):
                raise PdfError('the font %s has the encoding %r' % (self.base, d.get('Encoding')))
        elif self.sub == 'Type0':
            self.two = True
            if d.get('Encoding') != 'Identity-H':
                raise PdfError('composite font encoding')
            desc = [pdf.get(x) for x in d['DescendantFonts']]
            if len(desc) != 1:
                raise PdfError('composite font needs one descendant')
            desc = desc[0]
            fd = pdf.get(desc['FontDescriptor'])
            prog = pdf.get(fd['FontFile2'])
            body = prog.data()
            if prog.dic.get('Length1') != len(body):
                raise PdfError('font program Length1 is wrong')
            if body[:4] not in (b'\0\1\0\0', b'true'):
                raise PdfError('embedded font program is not TrueType')
            self.program = body
            self.w = {}
            arr = pdf.get(desc.get('W', []))
            i = 0
            while i < len(arr):
                first = arr[i]
                if isinstance(arr[i + 1], list):
                    for k, x in enumerate(arr[i + 1]):
                        self.w[first + k] = x
                    i += 2
                else:
                    for k in range(first, arr[i + 1] + 1):
                        self.w[k] = arr[i + 2]
                    i += 3
            self.map = {}
            tu = pdf.get(d['ToUnicode']).data()
            for blk in re.findall(rb'beginbfchar(.*?)endbfchar', tu, re.S):
                for a, b in re.findall(rb'<([^<>]*)>\s*<([^<>]*)>', blk):
                    try:
                        a, b = bytes.fromhex(a.decode()), bytes.fromhex(b.decode())
                        if len(a) != 2 or not b:
                            raise ValueError('length')
                        c = b.decode('utf-16-be', 'surrogatepass')
                    except ValueError:
                        raise PdfError('the map to Unicode of %s has the entry %r %r' % (
                            self.base, a, b))
                    self.map.setdefault(a[0] << 8 | a[1], ord(c) if len(c) == 1 else 0xFFFD)
            self.used = set()
            if IDENTIFY is not None:
                self.base = IDENTIFY(self, desc, fd, d)
        else:
            raise PdfError('font subtype %s' % self.sub)

    def advances(self, b):
        if self.two:
            return [(self.w.get(b[i] << 8 | b[i + 1], 1000) / 1000, False)
                    for i in range(0, len(b) - 1, 2)]
        return [(self.w[c] / 1000, c == 32) for c in b]

    def decode(self, b):
        """-> (text, width at size 1, number of single byte spaces)"""
        if self.two:
            if len(b) % 2:
                raise PdfError('odd number of bytes shown with a composite font')
            t = ''
            w = 0
            for i in range(0, len(b), 2):
                g = b[i] << 8 | b[i + 1]
                self.used.add(g)
                t += chr(self.map.get(g, 0xFFFD))
                w += self.w.get(g, 1000)
            return t, w / 1000, 0
        t = b.decode('latin')
        return t, sum(self.w[c] for c in b) / 1000, b.count(b' ')


NUMS = {
    'q': 0, 'Q': 0, 'cm': 6, 'w': 1, 'J': 1, 'g': 1, 'G': 1, 'rg': 3, 'RG': 3,
    're': 4, 'F': 0, 'f': 0, 'm': 2, 'l': 2, 'S': 0, 'BT': 0, 'ET': 0, 'Tm': 6,
    'Td': 2, 'Ts': 1, 'Tw': 1, 'TD': 2, 'T*': 0, 'TL': 1, 'n': 0, 'f*': 0, 'h': 0, 's': 0,
}


def mul(a, b):
    return (a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
            a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5])


def operations(data):
    lx = Lexer(data, content=True)
    args = []
    while True:
        kind, v = lx.next()
        if kind == '':
            if args:
                raise PdfError('operands at the end of a content stream: %r' % args)
            return
        if kind == 'kw' and v not in KEYWORDS:
            yield v.decode('latin'), args
            args = []
        else:
            args.append(lx.finish(kind, v))


def interpret(pdf, res, data, fonts):
    """-> list of events: dicts with 'k' in text, rect, line, image"""
    events = []
    gs = dict(ctm=(1, 0, 0, 1, 0, 0), fill=(0,), stroke=(0,), w=1, font=None,
              size=0, rise=0, tw=0, tl=0, dash=((), 0), cap=0)
    stack = []
    tm = tlm = None
    par = -1
    path = None
    rect = None
    fres = pdf.get(res.get('Font', {}))
    xres = pdf.get(res.get('XObject', {}))
    for op, a in operations(data):
        if op in NUMS:
            if len(a) != NUMS[op] or not all(
                    isinstance(x, (int, float)) and not isinstance(x, bool) for x in a):
                raise PdfError('operator %s with operands %r' % (op, a))
        if op == 'q':
            stack.append(dict(gs))
        elif op == 'Q':
            if not stack:
                raise PdfError('Q without q')
            gs = stack.pop()
        elif op == 'cm':
            gs['ctm'] = mul(a, gs['ctm'])
        elif op == 'w':
            gs['w'] = a[0]
        elif op == 'J':
            gs['cap'] = a[0]
        elif op == 'd':
            if len(a) != 2 or not isinstance(a[0], list):
                raise PdfError('operator d with operands %r' % (a,))
            gs['dash'] = (tuple(a[0]), a[1])
        elif op in ('g', 'rg'):
            gs['fill'] = tuple(a)
        elif op in ('G', 'RG'):
            gs['stroke'] = tuple(a)
        elif op == 're':
            rect = a
        elif op in ('F', 'f', 'f*'):
            if rect is None:
                raise PdfError('fill without a path')
            x, y = point(gs['ctm'], rect[0], rect[1])
            events.append(dict(k='rect', x=x, y=y, w=rect[2], h=rect[3], color=gs['fill']))
            rect = None
        elif op == 'm':
            path = [point(gs['ctm'], *a)]
        elif op == 'l':
            if not path:
                raise PdfError('l without m')
            path.append(point(gs['ctm'], *a))
        elif op == 'h':
            if path:
                path.append(path[0])
        elif op in ('S', 's'):
            if not path or len(path) < 2:
                raise PdfError('stroke without a path')
            events.append(dict(k='line', p=path, color=gs['stroke'], w=gs['w'],
                               dash=gs['dash']))
            path = None
        elif op == 'BT':
            if tm is not None:
                raise PdfError('BT inside BT')
            tm = tlm = (1, 0, 0, 1, 0, 0)
            par += 1
            line = 0
        elif op == 'ET':
            if tm is None:
                raise PdfError('ET without BT')
            tm = tlm = None
        elif op == 'Tf':
            if len(a) != 2 or not isinstance(a[0], Name):
                raise PdfError('operator Tf with operands %r' % (a,))
            if a[0] not in fres:
                raise PdfError('font %s is not in the page resources' % a[0])
            r = fres[a[0]]
            if r not in fonts:
                fonts[r] = Font(pdf, r)
            gs['font'], gs['size'] = fonts[r], a[1]
        elif op == 'Ts':
            gs['rise'] = a[0]
        elif op == 'Tw':
            gs['tw'] = a[0]
        elif op in ('Tm', 'Td'):
            if tm is None:
                raise PdfError('%s outside a text object' % op)
            tlm = tuple(a) if op == 'Tm' else mul((1, 0, 0, 1, a[0], a[1]), tlm)
            tm = tlm
            if op == 'Td' and a[1] != 0:
                line += 1
        elif op in ('TD', 'T*'):
            if tm is None:
                raise PdfError('%s outside a text object' % op)
            if op == 'TD':
                gs['tl'] = -a[1]
            tlm = mul((1, 0, 0, 1, a[0], a[1]) if op == 'TD' else
                      (1, 0, 0, 1, 0, -gs['tl']), tlm)
            tm = tlm
            line += 1
        elif op == 'TL':
            gs['tl'] = a[0]
        elif op == 'n':
            rect = path = None
        elif op in ('Tj', 'TJ'):
            if tm is None or gs['font'] is None:
                raise PdfError('text shown outside a text object or without font')
            if op == 'Tj' and (len(a) != 1 or not isinstance(a[0], bytes)):
                raise PdfError('operator Tj with operands %r' % (a,))
            if op == 'TJ' and (len(a) != 1 or not isinstance(a[0], list) or not all(
                    isinstance(x, (bytes, int, float)) for x in a[0])):
                raise PdfError('operator TJ with operands %r' % (a,))
            for piece in a if op == 'Tj' else a[0]:
                if not isinstance(piece, bytes):
                    tm = mul((1, 0, 0, 1, -piece / 1000 * gs['size'], 0), tm)
                    continue
                t, w, nsp = gs['font'].decode(piece)
                width = w * gs['size'] + nsp * gs['tw']
                x, y = point(gs['ctm'], tm[4], tm[5])
                events.append(dict(
                    k='text', t=t, x=x, y=y, w=width, font=gs['font'].base,
                    size=gs['size'], color=gs['fill'], rise=gs['rise'], tw=gs['tw'],
                    par=par, line=line, two=gs['font'].two, fontobj=gs['font'],
                    cw=[c * gs['size'] + (gs['tw'] if sp else 0)
                        for c, sp in gs['font'].advances(piece)]))
                tm = mul((1, 0, 0, 1, width, 0), tm)
        elif op == 'Do':
            if len(a) != 1 or a[0] not in xres:
                raise PdfError('Do %r: not in the page resources' % (a,))
            im = pdf.get(xres[a[0]])
            if not isinstance(im, Stream) or im.dic.get('Subtype') != 'Image':
                raise PdfError('Do %r is not an image' % (a,))
            c = gs['ctm']
            events.append(dict(k='image', x=c[4], y=c[5], w=c[0], h=c[3],
                               ref=int(xres[a[0]]), iw=im.dic.get('Width'),
                               ih=im.dic.get('Height'), data=im.raw,
                               cs=str(im.dic.get('ColorSpace')),
                               bpc=im.dic.get('BitsPerComponent'),
                               filter=str(im.dic.get('Filter')),
                               decode=pdf.get(im.dic.get('Decode'))))
        else:
            raise PdfError('unknown operator %r' % op)
    if stack:
        raise PdfError('q without Q')
    if tm is not None:
        raise PdfError('BT without ET')
    return events


def point(m, x, y):
    return (m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5])


def read(data):
    """Whole document: pages with events, annotations, destinations, outlines."""
    pdf = read_file(data)
    root = pdf.get(pdf.trailer.get('Root'))
    if not isinstance(root, dict) or root.get('Type') != 'Catalog':
        raise PdfError('trailer Root is not a catalog')
    if 'ID' in pdf.trailer:
        i = pdf.trailer['ID']
        if not isinstance(i, list) or len(i) != 2 or not all(
                isinstance(x, bytes) and len(x) >= 16 for x in i):
            raise PdfError('trailer ID is malformed: %r' % (i,))
    fonts = pdf.fonts = {}
    seen = set()

    def walk(ref, parent):
        if not isinstance(ref, Ref) or ref in seen:
            raise PdfError('page tree node %r is not a fresh reference' % (ref,))
        seen.add(ref)
        node = pdf.get(ref)
        if not isinstance(node, dict):
            raise PdfError('page tree node is not a dictionary')
        if parent is not None and node.get('Parent') != parent:
            raise PdfError('page %d names parent %r, it is a kid of %d'
                           % (ref, node.get('Parent'), parent))
        if node.get('Type') == 'Page':
            if parent is None:
                raise PdfError('page tree root is a page')
            pdf.pages.append(page(ref, node))
            return 1
        if node.get('Type') != 'Pages':
            raise PdfError('page tree node of type %r' % (node.get('Type'),))
        n = sum(walk(k, ref) for k in pdf.get(node.get('Kids')))
        if node.get('Count') != n:
            raise PdfError('page tree Count %r, has %d pages' % (node.get('Count'), n))
        return n

    def page(ref, node):
        p = Page()
        p.ref = int(ref)
        box = pdf.get(node.get('MediaBox'))
        if not isinstance(box, list) or len(box) != 4 or not all(
                isinstance(x, (int, float)) for x in box):
            raise PdfError('page without a MediaBox: %r' % (box,))
        p.box = box
        c = pdf.get(node.get('Contents'))
        if not isinstance(c, Stream):
            raise PdfError('page contents is not a stream')
        p.res = pdf.get(node.get('Resources', {}))
        p.events = interpret(pdf, p.res, c.data(), fonts)
        p.annots = []
        for an in pdf.get(node.get('Annots', [])):
            an = pdf.get(an)
            if an.get('Type', 'Annot') != 'Annot' or an.get('Subtype') != 'Link':
                raise PdfError('annotation %r' % (an,))
            r = an.get('Rect')
            if not isinstance(r, list) or len(r) != 4:
                raise PdfError('annotation without rectangle')
            if 'A' in an:
                act = pdf.get(an['A'])
                if act.get('S') != 'URI' or not isinstance(act.get('URI'), bytes):
                    raise PdfError('action %r' % (act,))
                p.annots.append(('uri', act['URI'].decode('latin'), r))
            elif 'Dest' in an and isinstance(an['Dest'], bytes):
                p.annots.append(('ref', an['Dest'].decode('latin'), r))
            else:
                raise PdfError('link without action or destination')
        return p

    if 'Pages' not in root:
        raise PdfError('catalog without Pages')
    walk(root['Pages'], None)
    pageno = {p.ref: i for i, p in enumerate(pdf.pages)}

    names = pdf.get(root.get('Names', {})).get('Dests') if 'Names' in root else None
    if names is not None:
        def tree(ref, first):
            node = pdf.get(ref)
            if ('Names' in node) == ('Kids' in node):
                raise PdfError('name tree node needs Names or Kids: %r' % (node,))
            out = []
            if 'Names' in node:
                ar = pdf.get(node['Names'])
                if len(ar) % 2:
                    raise PdfError('odd name tree leaf')
                for i in range(0, len(ar), 2):
                    v = pdf.get(ar[i + 1])
                    if not isinstance(ar[i], bytes):
                        raise PdfError('name tree key %r' % (ar[i],))
                    if isinstance(v, dict):
                        v = pdf.get(v.get('D'))
                    if not isinstance(v, list) or len(v) != 5 or v[1] != 'XYZ' \
                            or int(v[0]) not in pageno:
                        raise PdfError('destination %r is %r' % (ar[i], v))
                    out.append((ar[i], (pageno[int(v[0])], v[2], v[3], v[4])))
            else:
                if not node['Kids']:
                    raise PdfError('empty name tree node')
                for k in pdf.get(node['Kids']):
                    out += tree(k, False)
            if not out:
                raise PdfError('empty name tree')
            if not first:
                lim = node.get('Limits')
                if lim != [out[0][0], out[-1][0]]:
                    raise PdfError('name tree Limits %r for keys %r..%r'
                                   % (lim, out[0][0], out[-1][0]))
            return out
        al = tree(names, True)
        keys = [k for k, _ in al]
        if any(a >= b for a, b in zip(keys, keys[1:])):
            raise PdfError('name tree keys are not strictly sorted')
        pdf.dests = [(k.decode('latin'), v) for k, v in al]

    if 'Outlines' in root:
        ref = root['Outlines']
        top = pdf.get(ref)
        seen_o = set()

        def items(parent_ref):
            parent = pdf.get(parent_ref)
            out = []
            prev = None
            cur = parent.get('First')
            if cur is None:
                if 'Last' in parent:
                    raise PdfError('outline with Last and no First')
                return out
            while cur is not None:
                if cur in seen_o:
                    raise PdfError('outline loop')
                seen_o.add(cur)
                it = pdf.get(cur)
                if it.get('Parent') != parent_ref:
                    raise PdfError('outline item with wrong Parent')
                if it.get('Prev') != prev:
                    raise PdfError('outline item with wrong Prev')
                if not isinstance(it.get('Title'), bytes) or \
                        not isinstance(it.get('Dest'), bytes):
                    raise PdfError('outline item %r' % (it,))
                kids = items(cur)
                cnt = it.get('Count', 0)
                if bool(kids) != bool(cnt):
                    raise PdfError('outline Count %r with %d children' % (cnt, len(kids)))
                out.append(dict(title=decode_text(it['Title']),
                                dest=it['Dest'].decode('latin'),
                                open=cnt > 0, count=cnt, kids=kids))
                prev = cur
                cur = it.get('Next')
            if parent.get('Last') != prev:
                raise PdfError('outline Last is not the last item')
            return out
        pdf.outlines = items(ref)

        def visible(kids):
            return sum(1 + (visible(k['kids']) if k['open'] else 0) for k in kids)

        def check(kids):
            for k in kids:
                if k['kids'] and k['open'] and k['count'] != visible(k['kids']):
                    raise PdfError('outline Count %r, %d visible descendants'
                                   % (k['count'], visible(k['kids'])))
                check(k['kids'])
        check(pdf.outlines)
        if top.get('Count', 0) != visible(pdf.outlines):
            raise PdfError('outline root Count %r, %d visible'
                           % (top.get('Count'), visible(pdf.outlines)))
    return pdf


def decode_text(b):
    if b[:2] == b'\xfe\xff':
        return b[2:].decode('utf-16-be')
    return b.decode('latin')
