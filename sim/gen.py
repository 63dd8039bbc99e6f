"""Generators of document descriptions. Every word is unique in its run, so
every word seen in the PDF can be traced to where it was written."""

from . import model

LETTERS = 'abcdefghijklmnopqrstuvwxyz'
SPECIAL = ['(', ')', '\\', '\\(', '()', '))', '((', '%', '<', '>', '[', ']', '\xe9', '\xf1',
           '/', '&', "'", '"', '{', '}', '#', '$', '\\n', '\\\\', '\xff', '\xa9', '*']
FAMILIES = ['Helvetica', 'Times', 'Courier']
COLORS = [0, 0.5, 0.25, 'red', 'blue', 'green', '#ff8800', [0.2, 0.4, 0.6], '0.3 0.6 0.9', 'black',
          '#1af', '0.25,0.5,0.75', [0.4], '0.7']
NAMES = sorted(model.COLORS)


def color(rng, none=0):
    """A colour in one of the ways to write it."""
    if rng.random() < 0.3:
        return rng.choice(NAMES)
    return rng.choice(COLORS[none:])


class Words:
    def __init__(self, rng, special=0.1, prefix='', maxlen=7):
        self.rng = rng
        self.n = 0
        self.special = special
        self.prefix = prefix
        self.maxlen = maxlen
        self.vars = set()

    def context(self):
        """Values for the variables."""
        return {'one': self.one(), 'two': self.some(2), 'three': self.one(),
                'four': self.some(4)}

    def one(self):
        r = self.rng
        self.n += 1
        n = self.n
        code = ''
        while True:
            code = LETTERS[n % 26] + code
            n //= 26
            if not n:
                break
        # the code ends at the first upper case letter: unique whatever follows
        t = self.prefix + code + r.choice('ABCDEFGHIJ')
        t += ''.join(r.choice(LETTERS) for _ in range(r.randint(0, r.randint(0, self.maxlen))))
        if r.random() < self.special:
            s = r.choice(SPECIAL)
            t = r.choice([s + t, t + s, t[:len(t) // 2] + s + t[len(t) // 2:]])
        return t

    def short(self):
        m, self.maxlen = self.maxlen, 1
        try:
            return self.one()
        finally:
            self.maxlen = m

    def some(self, n):
        return ' '.join(self.one() for _ in range(n))


def pick(rng, table):
    """[(weight, value)] -> value"""
    tot = sum(w for w, _ in table)
    x = rng.random() * tot
    for w, v in table:
        x -= w
        if x < 0:
            return v
    return table[-1][1]


def text_style(rng, f):
    """A small style dict"""
    st = {}
    if rng.random() < f.get('style', 0.5):
        if rng.random() < 0.4:
            st['b'] = rng.random() < 0.7
        if rng.random() < 0.3:
            st['i'] = rng.random() < 0.7
        if rng.random() < 0.4:
            st['c'] = color(rng)
        if rng.random() < 0.3:
            st['s'] = rng.choice([6, 8, 9.5, 10, 12, 14, 18, 7.25])
        if rng.random() < 0.25:
            fams = list(f.get('families', FAMILIES)) + list(f.get('ttf', ()))
            st['f'] = rng.choice(fams)
        if rng.random() < f.get('underline', 0.15):
            st['u'] = rng.random() < 0.8
        if rng.random() < f.get('bg', 0.1):
            st['bg'] = color(rng)
        if rng.random() < f.get('rise', 0.1):
            st['r'] = rng.choice([0.5, -0.4, 0.25])
    return st


def as_dot(st):
    """style dict -> dot key, when it can be written that way"""
    parts = []
    for k, v in st.items():
        if k in ('b', 'i', 'u'):
            parts.append(k + ':0' if not v else k + ':1' if len(st) % 3 == 2 else k)
        elif k in ('c', 'bg') and isinstance(v, list):
            parts.append('%s:%s' % (k, ' '.join(str(x) for x in v)))
        elif k in ('c', 'bg') and not isinstance(v, str):
            parts.append('%s:%s' % (k, ' '.join(str(x) for x in [v, v, v])))
        else:
            parts.append('%s:%s' % (k, v))
    return '.' + ';'.join(parts)


def rich(rng, W, f, depth=0):
    """A paragraph part (dict) with nested parts"""
    d = {}
    st = text_style(rng, f)
    elems = []
    n = rng.randint(1, f.get('parts', 4))
    for _ in range(n):
        r = rng.random()
        if r < 0.6 or depth >= 2:
            t = W.some(rng.randint(1, f.get('run', 8)))
            if rng.random() < f.get('br', 0.08):
                t = W.some(1) + rng.choice(['\n', '\n\n', ' \n ', '\n']) + t
            if rng.random() < 0.06:
                t = t.replace(' ', '  ', 1)
            glue = rng.random() < f.get('glue', 0.15)
            elems.append(t if glue else t + ' ')
        else:
            elems.append(rich(rng, W, f, depth + 1))
            if rng.random() < 0.7:
                elems.append(' ')
    free = [v for v in f.get('vars', ()) if v not in W.vars]
    if rng.random() < f.get('var', 0.0) and free:
        # once each: the words seen must be unique
        name = rng.choice(free)
        elems.insert(rng.randint(0, len(elems)), {'var': name})
        W.vars.add(name)
        elems.insert(rng.randint(0, len(elems)), ' ')
    if f.get('notes'):
        f['notes'].put(elems)
    if st and rng.random() < 0.5:
        d[as_dot(st)] = elems
    else:
        d['.'] = elems
        if st:
            d['style'] = st
        elif f.get('formats') and rng.random() < 0.2:
            d['style'] = rng.choice(f['formats'])
    if f.get('marks'):
        f['marks'].put(d)
    return d


def paragraph(rng, W, f):
    r = rng.random()
    if r < 0.2:
        return W.some(rng.randint(1, f.get('long', 30)))
    if r < 0.3:
        return [W.some(rng.randint(1, f.get('run', 8))) + ' ', rich(rng, W, f, 1)]
    d = rich(rng, W, f)
    if rng.random() < 0.3:
        k = [x for x in d if x.startswith('.')][0]
        d[k].append(' ' + W.some(rng.randint(1, f.get('long', 30))))
    return d


def par_args(rng, W, f):
    """text_align, line_height, indent and list arguments"""
    a = {}
    if rng.random() < 0.6:
        a['text_align'] = rng.choice(['l', 'c', 'r', 'j', 'j', 'l'])
    if rng.random() < 0.4:
        a['line_height'] = rng.choice([1, 1.1, 1.5, 2])
    wide = f.get('room', 380) > 170
    if rng.random() < f.get('indent', 0.25) and wide:
        a['indent'] = rng.choice([10, 20, 35.5])
    if rng.random() < f.get('list', 0.2):
        a['list_text'] = W.short() + rng.choice(['. ', ' ', ') '])
        if rng.random() < 0.4 and wide:
            a['list_indent'] = rng.choice([75, 90.5])
        if rng.random() < 0.4:
            a['list_style'] = {k: v for k, v in text_style(rng, {
                'style': 1, 'ttf': f.get('ttf', ()), 'families': f.get('families', FAMILIES)}).items()
                               if k in ('b', 'i', 'c', 's', 'f')}
    return a


# ------------------------------------------------- boxes, tables, images

def text_element(rng, W, f, short=False):
    """A paragraph as an element of a box or cell"""
    r = rng.random()
    n = rng.choice([1, 2, 4]) if short else rng.choice([1, 3, 8, f.get('long', 20)])
    if r < 0.4:
        return W.some(n)
    g = dict(f, long=n, run=max(1, n // 2))
    d = rich(rng, W, g, 1)
    if isinstance(d.get('style'), str):
        return d
    st = d.get('style', {})
    a = par_args(rng, W, f) if rng.random() < f.get('args', 0.3) else {}
    st.update(a)
    if rng.random() < f.get('margins', 0.2):
        st[rng.choice(['margin_left', 'margin_right', 'margin_top', 'margin_bottom'])] = \
            rng.choice([3, 8])
    if st:
        d['style'] = st
    return d


class Images:
    """Image files of a scenario: every use has a file of its own."""

    def __init__(self, rng, kinds=('jpg', 'jpg', 'png')):
        self.rng = rng
        self.kinds = kinds
        self.files = {}

    def one(self, rmin=0.3, rmax=1.5):
        r = self.rng
        n = len(self.files)
        kind = r.choice(self.kinds)
        w = r.choice([8, 16, 24, 40])
        h = max(4, int(w * r.uniform(rmin, rmax)))
        # sizes tell the files apart
        used = {tuple(v['size']) for v in self.files.values()}
        while (w, h) in used:
            w += 1
        path = '/simdisk/img%d.%s' % (n, kind)
        self.files[path] = {'size': [w, h], 'color': [r.randint(0, 255) for _ in range(3)],
                            'kind': kind, 'mode': r.choice(['RGB', 'RGB', 'L', 'RGBA', 'P']
                                                           if kind == 'png' else
                                                           ['RGB', 'RGB', 'L', 'CMYK'])}
        return path


def one_image(f, imgs):
    return imgs.one(0.2, max(0.35, min(1.5, 130 / f.get('room', 380))))


def image_element(rng, f, imgs):
    d = {'image': one_image(f, imgs)}
    st = {}
    if rng.random() < 0.4:
        st['image_place'] = rng.choice(['flow', 'normal'])
    if rng.random() < 0.5:
        st['min_height'] = rng.choice([5, 10, 20])
        if rng.random() < 0.3:
            st['shrink'] = True
    if rng.random() < f.get('margins', 0.2):
        st[rng.choice(['margin_left', 'margin_right', 'margin_top', 'margin_bottom'])] = \
            rng.choice([3, 8])
    if st:
        d['style'] = st
    return d


BORDER_STYLES = ['solid', 'dashed', 'dotted']


WIDTHS = [0, 0, 0.5, 0.5, 1, 1, 2, 2, 2, 9, 16]


def table_element(rng, W, f, imgs, depth=0):
    rows = rng.choice(f.get('rows', [1, 2, 3, 5, 8]))
    cols = rng.choice([1, 2, 2, 3] if depth == 0 else [1, 2])
    room = f.get('room', 380)
    while cols > 1 and room / cols < 70:
        cols -= 1
    if depth:
        rows = min(rows, 3)
    spans = f.get('spans', 0.2)
    content = [[''] * cols for _ in range(rows)]
    taken = set()
    for r in range(rows):
        for c in range(cols):
            if (r, c) in taken:
                content[r][c] = None
                continue
            cs = rs = 1
            if rng.random() < spans:
                while c + cs < cols and (r, c + cs) not in taken and rng.random() < 0.5:
                    cs += 1
                while r + rs < rows and rng.random() < 0.5 and not any(
                        (r + rs, c + k) in taken for k in range(cs)):
                    rs += 1
            for i in range(rs):
                for j in range(cs):
                    taken.add((r + i, c + j))
            e = cell(rng, W, dict(f, room=room / cols * cs * 0.9 - 16), imgs, depth)
            if cs > 1 or rs > 1:
                if not isinstance(e, dict):
                    e = {'.': e or ''}
                if cs > 1:
                    e['colspan'] = cs
                if rs > 1:
                    e['rowspan'] = rs
            content[r][c] = e
    t = {'table': content}
    if rng.random() < 0.4:
        t['widths'] = [rng.choice([2, 3, 4]) for _ in range(cols)]
    st = {}
    if rng.random() < 0.5:
        st['cell_margin'] = rng.choice([3, 4, 8])
    if rng.random() < 0.2:
        st['cell_margin_' + rng.choice(['left', 'right', 'top', 'bottom'])] = rng.choice([3, 6])
    if rng.random() < 0.25:
        st['cell_fill'] = color(rng, 1)
    if rng.random() < 0.3:
        st['border_width'] = rng.choice(WIDTHS)
    if rng.random() < 0.3:
        st['border_color'] = color(rng)
    if rng.random() < 0.3:
        st['border_style'] = rng.choice(BORDER_STYLES)
    if rng.random() < 0.2:
        st['s'] = rng.choice([7, 9, 12])
    if rng.random() < 0.15:
        st['text_align'] = rng.choice(['c', 'r', 'j'])
    if st:
        t['style'] = st
    if rng.random() < f.get('borders', 0.4):
        t['borders'] = []
        for _ in range(rng.randint(1, 3)):
            v = rng.random() < 0.5
            b = {'pos': ('v' if v else 'h') + axis_pos(rng, rows + (not v)) + ';' +
                 axis_pos(rng, cols + v)}
            b['width'] = rng.choice(WIDTHS)
            if rng.random() < 0.5:
                b['color'] = color(rng)
            if rng.random() < 0.5:
                b['style'] = rng.choice(BORDER_STYLES)
            t['borders'].append(b)
    if rng.random() < f.get('fills', 0.3):
        t['fills'] = [{'pos': axis_pos(rng, rows) + ';' + axis_pos(rng, cols),
                       'color': color(rng, 1)} for _ in range(rng.randint(1, 2))]
    return t


def axis_pos(rng, n):
    r = rng.random()
    if r < 0.3:
        return ':'
    if r < 0.4:
        return '::2'
    if r < 0.5:
        return str(-1)
    if r < 0.7:
        return str(rng.randint(0, n - 1))
    if r < 0.8 and n > 1:
        return '0,-1'
    lo = rng.randint(0, n - 1)
    return '%d:%d' % (lo, rng.randint(lo + 1, n))


def cell(rng, W, f, imgs, depth):
    r = rng.random()
    deep = f.get('nest', 0.2) if depth < 2 else 0
    if r < 0.08:
        return '' if rng.random() < 0.5 else None
    if imgs is not None and r < 0.08 + f.get('image', 0.1):
        e = {'image': one_image(f, imgs)}
    elif r > 1 - deep:
        if rng.random() < 0.5 and f.get('room', 380) > 80:
            e = table_element(rng, W, f, imgs, depth + 1)
        else:
            e = box(rng, W, f, imgs, depth + 1)
    else:
        e = text_element(rng, W, f, short=rng.random() < 0.6)
    if rng.random() < 0.2 and isinstance(e, dict) and not isinstance(e.get('style'), str):
        st = e.setdefault('style', {})
        if rng.random() < 0.5:
            st['cell_fill'] = color(rng, 1)
        else:
            st['cell_margin'] = rng.choice([2, 4, 7])
    return e


def box(rng, W, f, imgs, depth=0, n=None):
    d = {}
    room = f.get('room', 380)
    if rng.random() < f.get('cols', 0.4) and depth < 3 and room > 190:
        d['cols'] = {'count': 2 if depth or room < 300 else rng.choice([2, 2, 3])}
        f = dict(f, room=(room - 20) / d['cols']['count'] - 3)
        if rng.random() < 0.5:
            d['cols']['gap'] = rng.choice([6, 12, 20])
    st = {}
    if rng.random() < 0.2:
        st[rng.choice(['margin_left', 'margin_right', 'margin_top', 'margin_bottom'])] = \
            rng.choice([3, 8])
    if rng.random() < 0.3:
        st.update(text_style(rng, dict(f, style=1)))
        for k in ('u', 'bg', 'r'):
            st.pop(k, None)
    if rng.random() < 0.2:
        st['text_align'] = rng.choice(['l', 'c', 'r', 'j'])
    if f.get('image') and rng.random() < 0.15:
        st['min_height'] = rng.choice([5, 10, 20])
    if st:
        d['style'] = st
    n = n or rng.choice([1, 2, 3, 5] if depth else f.get('elems', [1, 2, 4, 8]))
    d['content'] = [element(rng, W, f, imgs, depth) for _ in range(n)]
    return d


def element(rng, W, f, imgs, depth):
    r = rng.random()
    a = f.get('image', 0.1) if imgs is not None else 0
    b = f.get('table', 0.15) if depth < 2 and f.get('room', 380) > 80 else 0
    c = f.get('nest', 0.2) if depth < 2 else 0
    g = f.get('group', 0.08)
    if r < a:
        return image_element(rng, f, imgs)
    r -= a
    if r < b:
        return table_element(rng, W, f, imgs, max(1, depth))
    r -= b
    if r < c:
        return box(rng, W, f, imgs, depth + 1)
    r -= c
    if r < g:
        es = []
        for _ in range(rng.choice([1, 2, 3])):
            if imgs is not None and rng.random() < 0.35:
                e = {'image': imgs.one(0.2, 0.6)}
                if rng.random() < 0.5:
                    e['style'] = {'min_height': rng.choice([5, 10, 15])}
                es.append(e)
            elif rng.random() < 0.15:
                es.append(table_element(rng, W, dict(f, nest=0, image=0, rows=[1, 2]), imgs, 2))
            else:
                es.append(text_element(rng, W, f, short=True))
        d = {'group': es}
        if rng.random() < 0.2:
            d['style'] = {rng.choice(['margin_left', 'margin_top', 'margin_bottom', 'shrink']): 8}
        return d
    return text_element(rng, W, f, short=rng.random() < 0.3)
