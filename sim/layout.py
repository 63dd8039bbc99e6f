"""What a description of boxes, tables, paragraphs and images must look like
once it is on pages: an independent reading of the description (a tree of
nodes) against what the reader of the PDF saw.

Geometry is only taken from the description and from the rectangles the
element was given; where pages and columns break is taken from what was seen.
"""
from . import model
from .core import Violation, Invalid

EPS = 0.06
PAR = ('text_align', 'line_height', 'indent', 'list_text', 'list_style', 'list_indent')
SIDES = ('top', 'right', 'bottom', 'left')


class Node:
    def __init__(self, kind, parent, style, name):
        self.kind = kind
        self.parent = parent
        self.style = style
        self.name = name
        self.children = []
        self.atoms = []     # of a leaf: what was seen of it
        self.boxes = None   # of a root: [(page, x, ytop, w, h)]
        self.optional = False   # its operation failed: may be missing
        if parent is not None:
            parent.children.append(self)

    def path(self):
        n = self
        out = []
        while n is not None:
            out.append(n)
            n = n.parent
        return out[::-1]

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n


class Atom:
    """A line of a paragraph or an image, as seen."""
    __slots__ = ('page', 'x0', 'x1', 'y', 'top', 'words', 'key', 'exts', 'node', 'box')


# ------------------------------------------------------------ descriptions

class Builder:
    loose = False       # cells may overlap
    shorter = ()        # pages with notes at their ends

    def __init__(self, env, defaults=None):
        self.env = env
        self.defaults = {'f': 'Helvetica', 's': 11, 'c': 0.1, 'text_align': 'l',
                         'line_height': 1.1, 'indent': 0}
        self.defaults.update(defaults or {})
        self.pars = []
        self.images = []
        self.tables = []
        self.n = 0

    def snapshot(self):
        return len(self.pars), len(self.images), len(self.tables)

    def rollback(self, at):
        """Forget what was described since snapshot()."""
        del self.pars[at[0]:], self.images[at[1]:], self.tables[at[2]:]

    def name(self, what):
        self.n += 1
        return '%s %d' % (what, self.n)

    def root_content(self, desc):
        return self.box(desc, None, dict(self.defaults))

    def root_table(self, content, style=None, **kw):
        st = dict(self.defaults)
        st.update(self.env.style(style))
        return self.table(content, None, st, **kw)

    def root_text(self, desc, **args):
        st = {k: self.defaults[k] for k in ('f', 's', 'c')}
        n = Node('par', None, st, self.name('paragraph'))
        self.par(n, desc, st, args)
        return n

    def par(self, n, desc, style, args):
        p = model.Par(desc, style, self.env, n.name)
        p.args = args
        if args.get('line_height', 1) < 1 or args.get('list_text', 'x') == '':
            raise Invalid('arguments')
        p.node = n
        n.par = p
        self.pars.append(p)
        lt = args.get('list_text')
        if lt is not None and p.words:
            st = dict(p.words[0].segs[0].style)
            ls = args.get('list_style')
            st.update(self.env.style(ls) if ls is not None else {})
            b = model.Par(lt, st, self.env, 'bullet of ' + n.name)
            b.of = p
            p.bullet = b
            self.pars.append(b)
        return p

    def box(self, desc, parent, inherited):
        if not isinstance(desc, dict) or not isinstance(desc.get('content', []), list):
            raise Invalid('box')
        st = {'margin_bottom': 5}
        st.update(inherited)
        st.update(self.env.style(desc.get('style')))
        n = Node('box', parent, st, self.name('box'))
        cols = desc.get('cols', {})
        n.cols = cols.get('count', 1)
        n.gap = cols.get('gap')
        if not isinstance(n.cols, int) or n.cols < 1:
            raise Invalid('cols')
        for e in desc.get('content', []):
            self.element(e, n, st)
        return n

    def merged(self, e, style):
        st = dict(style)
        k = model.dot_key(e)
        if k is not None:
            st.update(model.dot(k[1:]))
        st.update(self.env.style(e.get('style')))
        return st

    def element(self, e, parent, style):
        if isinstance(e, (str, list, tuple)):
            e = {'.': e}
        if not isinstance(e, dict):
            raise Invalid('element')
        st = self.merged(e, style)
        if model.dot_key(e) is not None:
            n = Node('par', parent, st, self.name('paragraph'))
            self.par(n, e, st, {k: st[k] for k in PAR if k in st})
        elif 'image' in e:
            n = self.image(e, parent, st)
        elif 'table' in e:
            n = self.table(e['table'], parent, st, **{
                k: e[k] for k in ('widths', 'borders', 'fills') if k in e})
        elif 'content' in e:
            n = self.box(e, parent, st)
        elif 'group' in e and parent.kind == 'box':
            n = Node('group', parent, st, self.name('group'))
            for x in e['group']:
                self.element(x, n, st)
            for c in n.children:
                if c.kind not in ('par', 'image', 'table'):
                    raise Invalid('group')
            if not n.children:
                raise Invalid('group')
        else:
            raise Invalid('element')
        return n

    def image(self, e, parent, st):
        n = Node('image', parent, st, self.name('image'))
        n.file = e['image']
        self.images.append(n)
        return n

    def table(self, content, parent, style, widths=None, borders=None, fills=None):
        if not isinstance(content, list) or not content or not all(
                isinstance(r, list) and len(r) == len(content[0]) for r in content) \
                or not content[0]:
            raise Invalid('table')
        t = Node('table', parent, style, self.name('table'))
        self.tables.append(t)
        t.rows = len(content)
        t.cols = len(content[0])
        if widths is None:
            widths = [1] * t.cols
        if len(widths) != t.cols or sum(widths) <= 0:
            raise Invalid('widths')
        t.widths = [w / sum(widths) for w in widths]
        st = {'cell_margin': 5, 'cell_fill': None}
        st.update(style)
        t.border = {'width': st.pop('border_width', 0.5), 'color': st.pop('border_color', 0),
                    'style': st.pop('border_style', 'solid')}
        t.bdef = {}
        for b in borders or []:
            pos = b.get('pos')
            if pos is None:
                continue
            v = pos[0].lower() == 'v'
            rr, cc = positions(pos[1:], t.rows + (not v), t.cols + v)
            d = dict(t.border)
            d.update({k: x for k, x in b.items() if k != 'pos'})
            for i in rr:
                for j in cc:
                    t.bdef[v, i, j] = d
        t.fdef = {}
        for f in fills or []:
            if f.get('pos') is None:
                continue
            rr, cc = positions(f['pos'], t.rows, t.cols)
            for i in rr:
                for j in cc:
                    t.fdef[i, j] = f['color']
        taken = set()
        t.cell = {}
        for r in range(t.rows):
            for c in range(t.cols):
                e = content[r][c]
                if (r, c) in taken:
                    if e is not None:
                        raise Invalid('spanned cell')
                    continue
                if e is None:
                    e = ''
                if not isinstance(e, (str, list, tuple, dict)):
                    e = str(e)
                if isinstance(e, (str, list, tuple)):
                    e = {'.': e}
                cs, rs = e.get('colspan', 1), e.get('rowspan', 1)
                if not (isinstance(cs, int) and isinstance(rs, int) and cs >= 1 and rs >= 1
                        and c + cs <= t.cols and r + rs <= t.rows):
                    raise Invalid('span')
                for i in range(rs):
                    for j in range(cs):
                        if (r + i, c + j) in taken and not self.loose:
                            raise Invalid('span')
                        taken.add((r + i, c + j))
                        t.cell[r + i, c + j] = None
                cst = self.merged(e, st)
                n = Node('cell', t, cst, self.name('cell %d,%d' % (r, c)))
                n.r, n.c, n.rs, n.cs = r, c, rs, cs
                for i in range(rs):
                    for j in range(cs):
                        t.cell[r + i, c + j] = n
                n.margin = {}
                for side in SIDES:
                    k = 'cell_margin_' + side
                    n.margin[side] = cst.pop(k, cst.get('cell_margin'))
                    if n.margin[side] is None:
                        raise Invalid('cell margin')
                cst.pop('cell_margin', None)
                fill = cst.pop('cell_fill', None)
                n.fill = t.fdef.get((r, c)) if fill is None else fill
                e2 = {k: v for k, v in e.items() if k != 'style'}
                if model.dot_key(e) is not None:
                    m = Node('par', n, cst, self.name('paragraph'))
                    self.par(m, e2, cst, {k: cst[k] for k in PAR if k in cst})
                elif 'image' in e:
                    self.image(e, n, cst)
                elif 'content' in e:
                    self.box(e2, n, cst)
                elif 'table' in e:
                    self.table(e['table'], n, cst, **{
                        k: e[k] for k in ('widths', 'borders', 'fills') if k in e})
        return t

    def cell_rows(self, n):
        return range(n.r, n.r + n.rs)


def positions(s, nr, nc):
    parts = s.split(';')
    if len(parts) == 1:
        parts.append(':')
    return [axis(p, n) for p, n in zip(parts, (nr, nc))]


def axis(p, n):
    try:
        if p == '' or ':' in p:
            a = ((p or ':').split(':') + [''])[:3]
            lo = int(a[0]) if a[0].strip() else 0
            hi = int(a[1]) if a[1].strip() else n
            st = int(a[2]) if a[2].strip() else 1
            return list(range(lo + n if lo < 0 else lo, hi + n if hi < 0 else hi, st))
        return [int(i) + n if int(i) < 0 else int(i) for i in p.split(',')]
    except ValueError:
        raise Invalid('pos')


def border(t, v, i, j):
    return t.bdef.get((v, i, j), t.border)


# ------------------------------------------------------------ observations

def cell_exts(n, ext):
    """Rooms the contents of a cell may have, by the borders beside it."""
    t = n.parent
    x, w = ext
    x0 = x + sum(t.widths[:n.c]) * w
    full = sum(t.widths[n.c:n.c + n.cs]) * w
    ls = {border(t, True, r, n.c)['width'] for r in range(n.r, n.r + n.rs)}
    rs = {border(t, True, r, n.c + n.cs)['width'] for r in range(n.r, n.r + n.rs)}
    out = []
    for a in ls:
        for b in rs:
            left = a / 2 + n.margin['left']
            out.append((x0 + left, full - left - b / 2 - n.margin['right']))
    return out


def columns(n, ext):
    x, w = ext
    gap = max(w / 25, 7) if n.gap is None else n.gap
    cw = (w - gap * (n.cols - 1)) / n.cols
    return [(x + c * (cw + gap), cw) for c in range(n.cols)]


def inner(child, ext):
    """The room of an element of a box, in a column of it."""
    if child.kind in ('box', 'group'):
        return ext
    ml, mr = child.style.get('margin_left', 0), child.style.get('margin_right', 0)
    return ext[0] + ml, ext[1] - ml - mr


def descend(path, ext, at):
    """-> [(key, ext)]: rooms of the last node of a path, for something seen
    at x; one per reading of the borders"""
    found = [((), ext)]
    for i, n in enumerate(path[:-1]):
        nxt = []
        child = path[i + 1]
        for key, e in found:
            if n.kind == 'box':
                cols = columns(n, e)
                c = 0
                for k, (cx, cw) in enumerate(cols):
                    if at >= cx - 2:
                        c = k
                if cols[c][1] <= 0:
                    raise Invalid('no room')
                nxt.append((key + (c,), inner(child, cols[c])))
            elif n.kind == 'group':
                nxt.append((key, inner(child, e)))
            elif n.kind == 'table':
                nxt += [(key, x) for x in cell_exts(child, e)]
            else:
                nxt.append((key, e))
        found = nxt
    return found


def locate(a, slack=0.06):
    """Fill in where an atom is: key and possible rooms."""
    root = a.node.root()
    path = a.node.path()
    mid = a.x0 + 0.01
    for b, (pg, x, ytop, w, h) in enumerate(root.boxes):
        if pg == a.page and ytop - h - slack <= a.y and a.y <= ytop + slack and \
                a.top <= ytop + slack and x - 0.1 <= a.x0 <= x + w + 0.1:
            a.box = b
            got = descend(path, (x, w), mid)
            key = next((k for k, (ex, ew) in got if ex - 0.1 <= a.x0 and a.x1 <= ex + ew + 0.1),
                       got[0][0])
            a.key = (b,) + key
            a.exts = [e for k, e in got if k == key]
            return
    raise Violation('outside', '%s: %s at %.2f, %.2f on page %d is in none of the rectangles '
                    'it was given: %r' % (a.node.name, show(a), a.x0, a.y, a.page + 1,
                                          root.boxes[:8]))


def show(a):
    return repr(' '.join(w.t for w in a.words)[:60]) if a.words else 'image'


def par_lines(p):
    """observed lines of a paragraph: [[(expected, observed)]]"""
    out = []
    for e, o in zip(p.words, p.obs):
        if out:
            q = out[-1][-1][1]
            if o.page == q.page and abs(o.y - q.y) < 0.01 and o.par == q.par:
                out[-1].append((e, o))
                continue
        out.append([(e, o)])
    return out


def observe_pars(pars):
    for p in pars:
        if p.of is not None:
            continue
        p.lines = par_lines(p)
        p.node.atoms = []
        for line in p.lines:
            a = Atom()
            a.node = p.node
            a.page = line[0][1].page
            a.x0, a.x1 = line[0][1].x, line[-1][1].x1
            a.y = line[0][1].y
            a.top = a.y + max(o.size for _, o in line)
            a.words = [o for _, o in line]
            locate(a)
            p.node.atoms.append(a)


def check_par(p):
    """Every line is inside its room, aligned as asked."""
    args = p.args
    li = list_indent(p)
    how = args.get('text_align') or 'l'
    for k, line in enumerate(p.lines):
        a = p.node.atoms[k]
        err = None
        for ext in a.exts:
            err = fits_line(p, line, k, ext, li, how)
            if err is None:
                break
        if err is not None:
            raise Violation(*err)
        if k:
            q = p.node.atoms[k - 1]
            gap = q.y - a.y
            size = max(o.size for _, o in line) + model.reach(line)[0] + \
                model.reach(p.lines[k - 1])[1]
            if a.page == q.page and 0 < gap < size - EPS and a.x0 < q.x1 and q.x0 < a.x1:
                raise Violation('overlap', '%s: line %d (%s) is %.2f below the one before, %.2f '
                                'is needed' % (p.name, k, line[0][1].t, gap, size))
    if p.bullet is not None and p.bullet.obs and p.obs:
        b, o = p.bullet.obs[0], p.obs[0]
        if b.page != o.page or abs(b.y - o.y) > 0.01:
            raise Violation('bullet', '%s: its list text is not beside its first line' % p.name)


def list_indent(p):
    if p.bullet is None:
        return 0
    li = p.args.get('list_indent')
    if li is None:
        look = p.bullet.obs[0].segs[0][1] if p.bullet.obs else \
            p.env.look(p.bullet.runs[0].style)
        li = model.measure(str(p.args['list_text']), look)
    return li


def fits_line(p, line, k, ext, li, how):
    x, w = ext
    left = x + li + (p.args.get('indent', 0) if k == 0 else 0)
    right = x + w
    a, b = line[0][1].x, line[-1][1].x1
    for (_, o), (_, q) in zip(line, line[1:]):
        if q.x < o.x1 - 0.05:
            return 'overlap', '%s: %r at %.2f overlaps %r' % (p.name, q.t, q.x, o.t)
    if a < left - EPS or b > right + 0.1:
        return 'outside', '%s: line %d (%s) spans %.2f to %.2f, its room is %.2f to %.2f' % (
            p.name, k, line[0][1].t, a, b, left, right)
    if how == 'l' or how == 'j':
        ok = abs(a - left) < EPS
    elif how == 'c':
        ok = abs((a + b) / 2 - (left + right) / 2) < EPS
    else:
        ok = abs(b - right) < EPS
    last = k == len(p.lines) - 1 or p.lines[k + 1][0][0].br
    if how == 'j' and not last and len(line) > 1:
        ok = ok and abs(b - right) < 0.1
    if not ok:
        return 'align', '%s: line %d (%s) spans %.2f to %.2f, between %.2f and %.2f ' \
            'aligned %r' % (p.name, k, line[0][1].t, a, b, left, right, how)
    return None


# ----------------------------------------------------------------- images

def observe_images(nodes, events, match):
    """Every expected image is seen exactly once. match(node, event) -> bool"""
    left = list(events)
    for n in nodes:
        hits = [e for e in left if match(n, e)]
        if not hits:
            if n.optional:
                continue
            raise Violation('lost-image', '%s (%s) is not shown' % (n.name, n.file))
        e = hits[0]
        left.remove(e)
        a = Atom()
        a.node = n
        a.page = e['page']
        a.x0, a.x1 = e['x'], e['x'] + e['w']
        a.y, a.top = e['y'], e['y'] + e['h']
        a.words = []
        locate(a, 0.06)
        n.atoms = [a]
        n.event = e
    if left:
        raise Violation('stray-image', 'an image is shown that was not put there, or again: '
                        'page %d at %.2f, %.2f' % (left[0]['page'] + 1, left[0]['x'],
                                                   left[0]['y']))


def check_image(n, size, shorter=()):
    a = n.atoms[0]
    e = n.event
    iw, ih = size
    if abs(e['w'] * ih - e['h'] * iw) > 0.02 * max(iw, ih):
        raise Violation('proportions', '%s is shown %.2f by %.2f, its file is %d by %d'
                        % (n.name, e['w'], e['h'], iw, ih))
    err = None
    for x, w in a.exts:
        err = None
        if a.x0 < x - EPS or a.x1 > x + w + EPS:
            err = 'outside', '%s spans %.2f to %.2f, its room is %.2f to %.2f' % (
                n.name, a.x0, a.x1, x, x + w)
        elif abs((a.x0 + a.x1) / 2 - x - w / 2) > EPS:
            err = 'align', '%s is not centered' % n.name
        elif e['w'] < w - EPS:
            mh = n.style.get('min_height')
            if mh is None or e['h'] < mh - EPS:
                err = 'size', '%s is shown %.2f wide, its room is %.2f' % (n.name, e['w'], w)
            else:
                err = e['page'] not in shorter and not_full(n, e, mh) or None
        if err is None:
            return
    if err:
        raise Violation(*err)


def not_full(n, e, mh):
    """A picture is narrower than its room only to end where the room ends,
    or to be as tall as it must be."""
    path = n.path()
    if any(m.kind in ('group', 'table', 'cell') or m.kind == 'box' and m.cols > 1 for m in path):
        return None
    if n.style.get('shrink'):
        if abs(e['h'] - mh) > EPS:
            return 'size', '%s is shown %.2f tall, it was to shrink to %.2f' % (n.name, e['h'], mh)
        return None
    ends = [ytop - h for page, _, ytop, _, h in n.root().boxes if page == e['page']]
    if not any(abs(n.atoms[0].y - y) < 0.1 for y in ends):
        return 'size', '%s is shown %.2f wide, and there is room for more: it ends at %.2f, its ' \
            'room at %r' % (n.name, e['w'], n.atoms[0].y, ends)


# --------------------------------------------------------------- ordering

def depth(n):
    """Length of the key of a slot of n"""
    return 1 + sum(1 for m in n.path() if m.kind == 'box')


def before(a, b, d):
    """a must come before b, in the slots of depth d"""
    ka, kb = a.key[:d], b.key[:d]
    if ka != kb:
        return ka < kb
    return a.y >= b.top - EPS


class Edge:
    """The furthest something reached in a container."""

    def __init__(self):
        self.a = None

    def check(self, atoms, d, what):
        if self.a is None:
            return
        for b in atoms:
            if not before(self.a, b, d):
                raise Violation('disordered', '%s: %s (%s, slot %r, y %.2f) does not come after '
                                '%s (%s, slot %r, y %.2f)' % (
                                    what, show(b), b.node.name, b.key, b.top, show(self.a),
                                    self.a.node.name, self.a.key, self.a.y))

    def add(self, atoms, d):
        for a in atoms:
            if self.a is None or (self.a.key[:d], -self.a.y) < (a.key[:d], -a.y):
                self.a = a


def order(n):
    """Check everything under n -> its atoms"""
    if n.kind in ('par', 'image'):
        if n.kind == 'par':
            d = len(n.atoms[0].key) if n.atoms else 0
            for a, b in zip(n.atoms, n.atoms[1:]):
                if not before(a, b, d):
                    raise Violation('disordered', '%s: line %s (slot %r, y %.2f) does not come '
                                    'after line %s (slot %r, y %.2f)' % (
                                        n.name, show(b), b.key, b.top, show(a), a.key, a.y))
        return list(n.atoms)
    out = []
    d = depth(n)
    if n.kind in ('box', 'group'):
        edge = Edge()
        last = None
        for c in n.children:
            atoms = order(c)
            edge.check(atoms, d, n.name)
            floats = n.kind == 'box' and (c.kind == 'group' or c.kind == 'image' and
                                          c.style.get('image_place', 'flow') == 'flow')
            if not floats:
                edge.add(atoms, d)
                if last is not None:
                    apart(last[0], last[1], c, atoms, d)
                last = c, atoms
            out += atoms
        if n.kind == 'group' and out:
            slots = {a.key[:d] for a in out}
            if len(slots) > 1:
                raise Violation('group', '%s is split over %r' % (n.name, sorted(slots)))
    elif n.kind == 'table':
        cells = [(c, order(c)) for c in n.children]
        edges = [Edge() for _ in range(n.rows + 1)]
        for c, atoms in cells:   # edges[i]: all that must be above row i
            edges[c.r + c.rs].add(atoms, d)
        for i in range(1, n.rows + 1):
            if edges[i - 1].a is not None:
                edges[i].add([edges[i - 1].a], d)
        for c, atoms in cells:
            edges[c.r].check(atoms, d, '%s row %d' % (n.name, c.r))
            out += atoms
    else:
        for c in n.children:
            out += order(c)
    return out


def apart(p, above, q, below, d):
    """Elements keep clear of each other by their margins."""
    want = p.style.get('margin_bottom', 0) + q.style.get('margin_top', 0)
    for key in {a.key[:d] for a in above} & {b.key[:d] for b in below}:
        a = min((a for a in above if a.key[:d] == key), key=lambda a: a.y)
        b = max((b for b in below if b.key[:d] == key), key=lambda b: b.top)
        if a.y - b.top < want - EPS:
            raise Violation('margins', '%s (%s) is %.2f below %s (%s), the margins are %.2f' % (
                show(b), q.name, a.y - b.top, show(a), p.name, want))


def check_overlap(root):
    atoms = [a for n in root.walk() for a in n.atoms]
    for i, a in enumerate(atoms):
        for b in atoms[:i]:
            if a.page != b.page or a.node is b.node:
                continue
            if a.x0 < b.x1 - 0.3 and b.x0 < a.x1 - 0.3 and \
                    a.y < b.top - 0.1 and b.y < a.top - 0.1:
                raise Violation('overlap', '%s (%s) overlaps %s (%s) on page %d' % (
                    show(a), a.node.name, show(b), b.node.name, a.page + 1))


# ----------------------------------------------------------------- tables

def node_slots(t):
    """Every room the node could have had: [(page, x, w, ytop, ybottom)]"""
    path = t.path()
    root = path[0]
    out = []
    for b, (pg, x, ytop, w, h) in enumerate(root.boxes):
        exts = [(x, w)]
        for i, n in enumerate(path[:-1]):
            child = path[i + 1]
            nxt = []
            for e in exts:
                if n.kind == 'box':
                    nxt += [inner(child, c) for c in columns(n, e)]
                elif n.kind == 'group':
                    nxt.append(inner(child, e))
                elif n.kind == 'table':
                    nxt += cell_exts(child, e)
                else:
                    nxt.append(e)
            exts = nxt
        out += [(pg, ex, ew, ytop, ytop - h) for ex, ew in exts]
    return out


def may_not_fit(root, images, height):
    """Is there anything that cannot be split and may be too tall for a
    rectangle of this height?"""
    for n in root.walk():
        if n.kind == 'group' and (len(n.children) > 2 or any(
                m.kind in ('image', 'table') for m in n.walk()) or
                sum(len(m.par.words) for m in n.walk() if m.kind == 'par') > 10):
            return True
        if n.kind == 'image':
            room = max(w for _, _, w, _, _ in node_slots(n))
            tall = room * images[n.file]['size'][1] / images[n.file]['size'][0]
            if n.style.get('min_height') is not None and n.parent.kind == 'box':
                tall = min(tall, n.style['min_height'])
            pad = sum(m.margin['top'] + m.margin['bottom'] + 4 + max(
                [m.parent.border['width']] + [b['width'] for b in m.parent.bdef.values()])
                      for m in n.path() if m.kind == 'cell')
            if tall + pad > height - 1:
                return True
    return False


def dash_kind(e):
    d = e['dash'][0]
    if not d:
        return 'solid'
    return 'dotted' if d[0] == 0 else 'dashed'


def dashes_fit(e):
    """The dashes and gaps grow with the width of their line."""
    d = e['dash'][0]
    want = () if not d else (0, 2 * e['w']) if d[0] == 0 else (3 * e['w'], 1.5 * e['w'])
    return len(d) == len(want) and all(abs(p - q) < 0.01 for p, q in zip(d, want))


def same_border(e, b):
    c = model.color(b['color'])
    return c is not None and abs(e['w'] - b['width']) < 0.002 and dashes_fit(e) and \
        dash_kind(e) == b['style'] and model.same_color(e['color'], c)


class Rule:
    """A line that is part of a table, as seen."""

    def __init__(self, e):
        (x0, y0), (x1, y1) = e['p'][0], e['p'][-1]
        if len(e['p']) != 2:
            raise Violation('stray-rule', 'a line of %d points' % len(e['p']))
        self.v = abs(x0 - x1) < 0.01
        if not self.v and abs(y0 - y1) > 0.01:
            raise Violation('stray-rule', 'a slanted line %r' % (e['p'],))
        self.x0, self.x1 = min(x0, x1), max(x0, x1)
        self.y0, self.y1 = min(y0, y1), max(y0, y1)
        self.page = e['page']
        self.e = e


def check_tables(tables, rules, rects, words, pictures=()):
    """rules, rects: the lines and fills that do not belong to words."""
    slots = {id(t): node_slots(t) for t in tables}
    # vertical borders stick out by half the width of the horizontal ones
    over = 0.1 + max([0] + [b['width'] / 2 for t in tables
                            for b in [t.border] + list(t.bdef.values())])
    within = {}
    for a in [a for t in tables for n in t.walk() for a in n.atoms]:
        for w in a.words or [a]:
            within.setdefault(id(w), a.node.path())
    for r in rules:
        owners = [t for t in tables if rule_of(t, r, slots[id(t)])]
        if not owners:
            raise Violation('stray-rule', 'the line (%.2f, %.2f)-(%.2f, %.2f) %s on page %d is '
                            'no configured border of any table' % (
                                r.x0, r.y0, r.x1, r.y1, (r.e['w'], r.e['color'], dash_kind(r.e)),
                                r.page + 1))
        for w in words:
            if w.page != r.page:
                continue
            half = half_width(r, owners, within.get(id(w), []), (w.x + w.x1) / 2,
                              w.y + 0.2 * w.size)
            if r.v:
                hit = w.x + 0.5 < r.x0 + half and r.x0 - half < w.x1 - 0.5 and \
                    r.y0 + over < w.y + 1 < r.y1 - over
            else:
                hit = w.y + 0.05 < r.y0 + half and r.y0 - half < w.y + 0.5 * w.size and \
                    r.x0 + over < w.x1 - 0.5 and r.x1 - over > w.x + 0.5
            if hit:
                raise Violation('border', 'a border runs through %r on page %d'
                                % (w.t, w.page + 1))
        for a in pictures:
            half = half_width(r, owners, within.get(id(a), []), (a.x0 + a.x1) / 2,
                              (a.y + a.top) / 2)
            dx, dy = (-half, over) if r.v else (over, -half)
            if a.page == r.page and r.x0 + dx < a.x1 - 0.05 and r.x1 - dx > a.x0 + 0.05 and \
                    r.y0 + dy < a.top - 0.05 and r.y1 - dy > a.y + 0.05:
                raise Violation('border', 'a border runs through %s on page %d' % (
                    a.node.name, a.page + 1))
    for q in rects:
        if not any(rect_of(t, q, slots[id(t)]) for t in tables):
            raise Violation('stray-fill', 'the fill at %.2f, %.2f of %.2f by %.2f, colour %r, on '
                            'page %d belongs to no cell' % (q['x'], q['y'], q['w'], q['h'],
                                                            q['color'], q['page'] + 1))
    for t in tables:
        for c in t.children:
            check_cell(t, c, rules, lambda r: any(
                rule_of(u, r, slots[id(u)]) for u in tables if u is not t))
    check_fills(rects, words, tables)


def half_width(r, owners, path, x, y):
    """How far what lies at x, y in the cells of the path must be away from the
    middle of a rule: by half its width if this is a border of the cell, one
    that the cell makes room for. (The borders of another table may stick out,
    and so may the one that is drawn where a row is cut.)"""
    if len(owners) == 1 and owners[0] in path:
        t = owners[0]
        c = path[path.index(t) + 1]
        if r.v:
            b = border(t, True, c.r, c.c if r.x0 < x else c.c + c.cs)
        else:
            b = border(t, False, c.r if r.y0 > y else c.r + c.rs, c.c)
        if same_border(r.e, b):
            return r.e['w'] / 2
    return 0


def rule_of(t, r, slots):
    mx = max([t.border['width']] + [b['width'] for b in t.bdef.values()])
    for pg, x, w, ytop, ybot in slots:
        if pg != r.page or r.y1 > ytop + mx + EPS or r.y0 < ybot - mx - EPS:
            continue
        if r.x0 < x - mx - EPS or r.x1 > x + w + mx + EPS:
            continue
        if r.v:
            at = x
            for j in range(t.cols + 1):
                if abs(at - r.x0) < EPS and any(
                        same_border(r.e, border(t, True, i, j)) for i in range(t.rows)):
                    return True
                if j < t.cols:
                    at += t.widths[j] * w
        else:
            if any(same_border(r.e, border(t, False, i, j))
                   for i in range(t.rows + 1) for j in range(t.cols)):
                return True
    return False


def rect_of(t, q, slots):
    for pg, x, w, ytop, ybot in slots:
        if pg != q['page'] or q['y'] + q['h'] > ytop + EPS or q['y'] < ybot - EPS:
            continue
        for c in t.children:
            if c.fill is None:
                continue
            x0 = x + sum(t.widths[:c.c]) * w
            full = sum(t.widths[c.c:c.c + c.cs]) * w
            if abs(x0 - q['x']) < EPS and q['w'] <= full + EPS and \
                    model.same_color(q['color'], model.color(c.fill)):
                return True
    return False


def edges(t, c, a):
    """x of the left and right edge of a cell around an atom of it"""
    path = c.path()
    root = path[0]
    pg, x, ytop, w, h = root.boxes[a.box]
    for _, (ex, ew) in descend(path[:-1], (x, w), a.x0 + 0.01):
        yield (ex + sum(t.widths[:c.c]) * ew, ex + sum(t.widths[:c.c + c.cs]) * ew)


def check_cell(t, c, rules, elsewhere):
    kid = c.children[0] if c.children else None
    if kid is None or not kid.atoms:
        return
    rows = range(c.r, c.r + c.rs)
    seen = set()
    over = max([t.border['width']] + [b['width'] for b in t.bdef.values()]) / 2 + 0.1
    for k, a in enumerate(kid.atoms):
        first = a.key not in seen
        seen.add(a.key)
        for side, j in (('left', c.c), ('right', c.c + c.cs)):
            want = [border(t, True, i, j) for i in rows]
            ok = False
            for xs in edges(t, c, a):
                x = xs[side == 'right']
                got = [r for r in rules if r.v and r.page == a.page and abs(r.x0 - x) < EPS
                       and r.y0 - 0.1 <= a.y + 0.5 <= r.y1 + 0.1]
                if all(b['width'] > 0 for b in want):
                    ok = ok or any(same_border(r.e, b) for r in got for b in want)
                elif not any(b['width'] > 0 for b in want):
                    ok = ok or not any(
                        r.y0 + over <= a.y + 0.5 <= r.y1 - over and not elsewhere(r) for r in got)
                else:
                    ok = True
            if not ok:
                raise Violation('border', '%s of %s: its %s border beside %s on page %d is not '
                                'as configured (%r)' % (c.name, t.name, side, show(a),
                                                        a.page + 1, want[0]))
        if first:
            want = [border(t, False, i, c.c) for i in rows]
            top = max(b['width'] for b in want) / 2 + c.margin['top'] + 0.5
            if c.cs > 1:
                continue
            mid = [(l + r) / 2 for l, r in edges(t, c, a)]
            rise = 0
            if kid.kind == 'par':   # a space can be taller than the words of its line
                rise = max([15] + [1.5 * r.style.get('s', 11) for r in kid.par.runs if r])
            if kid.kind == 'par' and kid.par.lines[k][0][0].br:
                rise = 1000   # empty lines above it
            got = [r for r in rules if not r.v and r.page == a.page and
                   any(r.x0 - 0.1 <= m <= r.x1 + 0.1 for m in mid) and
                   a.top - 0.1 <= r.y0 <= a.top + top + rise]
            if all(b['width'] > 0 for b in want):
                if not any(same_border(r.e, b) for r in got for b in want):
                    raise Violation('border', '%s of %s: its top border above %s on page %d is '
                                    'not as configured (%r)' % (
                                        c.name, t.name, show(a), a.page + 1, want[0]))
            elif not any(b['width'] > 0 for b in want) and k == 0 and \
                    any(r.y0 <= a.top + top and not elsewhere(r) for r in got):
                raise Violation('border', '%s of %s: a border above %s on page %d where none is '
                                'configured' % (c.name, t.name, show(a), a.page + 1))
        if all(border(t, False, i, j)['width'] > 0 for i in range(t.rows + 1)
               for j in range(c.c, c.c + c.cs)):
            if not any(not r.v and r.page == a.page and r.y0 <= a.y + 0.1 and
                       r.x0 - 0.1 <= (a.x0 + a.x1) / 2 <= r.x1 + 0.1 for r in rules):
                raise Violation('border', '%s of %s: no border below %s on page %d' % (
                    c.name, t.name, show(a), a.page + 1))


def check_fills(rects, words, tables):
    """Behind every word and image are exactly the fills of its cells."""
    for t in tables:
        for c in t.children:
            for n in c.walk():
                if n.kind not in ('par', 'image') or nearest_cell(n) is not c:
                    continue
                want = []
                m = n
                while m is not None:
                    if m.kind == 'cell' and m.fill is not None:
                        want.append(model.color(m.fill))
                    m = m.parent
                for a in n.atoms:
                    y = a.y + 0.5 if n.kind == 'par' else (a.y + a.top) / 2
                    x = (a.x0 + a.x1) / 2
                    got = [q['color'] for q in rects if q['page'] == a.page and
                           q['x'] - EPS <= x <= q['x'] + q['w'] + EPS and
                           q['y'] - EPS <= y <= q['y'] + q['h'] + EPS]
                    if not same_colors(want, got):
                        raise Violation('fill', '%s of %s: behind %s on page %d are the fills %r, '
                                        'configured %r' % (c.name, t.name, show(a), a.page + 1,
                                                           got, want))


def nearest_cell(n):
    while n is not None and n.kind != 'cell':
        n = n.parent
    return n


def same_colors(a, b):
    b = list(b)
    if len(a) != len(b):
        return False
    for x in a:
        for y in b:
            if model.same_color(x, y):
                b.remove(y)
                break
        else:
            return False
    return True


# -------------------------------------------------------------- everything

def check_view(v, builder, roots, images=None, log=None):
    """All there is on the pages against all that was described."""
    pars = builder.pars
    model.assign(v.words, pars)
    for p in pars:
        if p.of is None or model.plain_start(p.of):
            p.check_style()
    for p in pars:   # words wider than a room they could get into
        if p.of is None and p.obs:
            room = min(w for _, _, w, _, _ in node_slots(p.node))
            need = max(o.x1 - o.x + (p.args.get('indent', 0) if i == 0 else 0)
                       for i, o in enumerate(p.obs)) + list_indent(p)
            if need > room - 0.05:
                raise Invalid('no room')
    observe_pars(pars)
    for p in pars:
        if p.of is None:
            check_par(p)
    images = images or {}

    def match(n, e):
        r = n.root()
        if getattr(r, 'running', False) and e['page'] != r.boxes[0][0]:
            return False
        return images[n.file]['match'](e)
    observe_images(builder.images, v.images, match)
    for n in builder.images:
        if n.atoms:
            check_image(n, images[n.file]['size'], builder.shorter)
    for r in roots:
        order(r)
        check_overlap(r)
    main = [p for p in pars if p.of is None]
    ul, ur = model.underlines(v, main)
    rules = [Rule(e) for i, e in enumerate(v.lines) if i not in ul]
    rects = [e for i, e in enumerate(v.rects) if i not in ur]
    # (what is drawn in the margins may lie under or over anything)
    words = [w for p in main for a in p.node.atoms for w in a.words
             if not getattr(p.node.root(), 'running', False)]
    pictures = [a for n in builder.images for a in n.atoms
                if not getattr(n.root(), 'running', False)]
    check_tables(builder.tables, rules, rects, words, pictures)
    if log is not None:
        log.n('words', len(v.words))
        log.n('rules', len(rules))
        log.n('fills', len(rects))
        log.n('images', len(v.images))
