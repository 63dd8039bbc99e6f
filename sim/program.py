"""Whole programs: a user's sequence of operations on one document, and what
the document must show after any of them. Every choice is in the scenario."""
import copy as _copy

from . import gen, layout, marks, model, observe, session, stage, world
from .core import Violation, Invalid

SIZES = {  # in points, from the standards
    'a5': (148, 210), 'a4': (210, 297), 'a3': (297, 420), 'b5': (176, 250), 'b4': (250, 353),
    'jis-b5': (182, 257), 'jis-b4': (257, 364), 'letter': (215.9, 279.4),
    'legal': (215.9, 355.6), 'ledger': (279.4, 431.8)}
MM = 72 / 25.4


def page_size(v):
    if isinstance(v, bool):
        raise Invalid('size')
    if isinstance(v, (int, float)):
        v = [v, v]
    elif isinstance(v, str):
        if v not in SIZES:
            raise Invalid('size')
        v = [x * MM for x in SIZES[v]]
    if not isinstance(v, (list, tuple)) or len(v) != 2 or not all(
            isinstance(x, (int, float)) and x > 0 for x in v):
        raise Invalid('size')
    return tuple(v)


def margins(v):
    """css order, as documented"""
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, str):
        v = [session.num(float(x)) for x in v.replace(',', ' ').split(' ')]
    if isinstance(v, (int, float)):
        v = [v]
    if not isinstance(v, (list, tuple)) or not 1 <= len(v) <= 4:
        raise Invalid('margin')
    v = list(v)
    v = v * 4 if len(v) == 1 else v * 2 if len(v) == 2 else v + [v[1]] if len(v) == 3 else v
    return dict(zip(('top', 'right', 'bottom', 'left'), v))


def roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'),
                 (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


class PageModel:
    def __init__(self, w, h, m, label):
        self.w, self.h, self.m = w, h, m
        self.label = label

    def box(self, i):
        m = self.m
        return (i, m.get('left', 0), self.h - m.get('top', 0),
                self.w - m.get('left', 0) - m.get('right', 0),
                self.h - m.get('top', 0) - m.get('bottom', 0))


# ------------------------------------------------------------- generators

def features(rng):
    return {'style': rng.choice([0, 0.3, 0.7]), 'long': rng.choice([5, 20, 50]),
            'br': rng.choice([0, 0.1]), 'glue': 0.1, 'list': rng.choice([0, 0.2]),
            'indent': 0.2, 'underline': 0.15, 'bg': 0.1, 'rise': 0.05,
            'image': rng.choice([0, 0.1, 0.2]), 'nest': rng.choice([0, 0.1, 0.3]),
            'spans': rng.choice([0, 0.2, 0.4]), 'table': rng.choice([0, 0.2, 0.4]),
            'group': rng.choice([0, 0.1, 0.2]), 'cols': rng.choice([0, 0.3, 0.6]),
            'margins': rng.choice([0, 0.3]), 'elems': [1, 2, 4], 'rows': [1, 2, 3, 5],
            'mark': rng.choice([0, 0.2, 0.5])}


def gen_size(rng):
    return rng.choice(['a5', 'a4', 'letter', 'b5', 'jis-b5', [460, 380], [420, 300], [500, 440],
                       450, [612, 480]])


def gen_margin(rng, small=False):
    r = rng.random()
    if r < 0.3:
        return rng.choice([20, 30, 40])
    if r < 0.45:
        return [rng.choice([20, 35]), rng.choice([15, 25])]
    if r < 0.55:
        return [30, rng.choice([15, 25]), 20]
    if r < 0.75:
        return [rng.choice([20, 40]), rng.choice([15, 25]), rng.choice([22, 38]),
                rng.choice([18, 32])]
    if r < 0.85:
        return rng.choice(['25', '20 30', '20,30', '20 25 35', '20 25 35 15'])
    return {'top': rng.choice([20, 40]), 'bottom': rng.choice([22, 38]),
            'left': rng.choice([18, 32]), 'right': rng.choice([15, 25])}


def gen_setup(rng, ttf=()):
    s = {'page_size': gen_size(rng), 'margin': gen_margin(rng)}
    if rng.random() < 0.3:
        s['rotate_page'] = rng.random() < 0.7
    if rng.random() < 0.3:
        s['page_numbering_offset'] = rng.choice([0, 1, 7, 40, 95, 390, 1986])
    if rng.random() < 0.3:
        s['page_numbering_style'] = rng.choice(['roman', 'arabic'])
    if rng.random() < 0.3:
        s['font_family'] = rng.choice(gen.FAMILIES + list(ttf))
    if rng.random() < 0.3:
        s['font_size'] = rng.choice([8, 9.5, 12, 14])
    if rng.random() < 0.3:
        s['font_color'] = gen.color(rng)
    if rng.random() < 0.3:
        s['text_align'] = rng.choice(['l', 'c', 'r', 'j'])
    if rng.random() < 0.3:
        s['outlines_level'] = rng.choice([1, 2, 3])
    return s


def gen_page_args(rng, p=0.4):
    a = {}
    if rng.random() < p:
        a['page_size'] = gen_size(rng)
    if rng.random() < p:
        a['rotate_page'] = rng.random() < 0.6
    if rng.random() < p:
        a['margin'] = gen_margin(rng)
        if isinstance(a['margin'], dict):
            for k in list(a['margin']):
                if rng.random() < 0.4:
                    del a['margin'][k]
    return a


def gen_running(rng, W, f):
    """A small box for the margin of every page"""
    es = []
    for _ in range(rng.choice([1, 1, 2])):
        e = {'.': [W.short() + ' ', {'var': '$page'}] if rng.random() < 0.7 else [W.some(2)]}
        if rng.random() < 0.4:
            e['style'] = {'s': rng.choice([6, 7.5]), 'c': gen.color(rng)}
        es.append(e)
    d = {'content': es, 'style': {'s': 7, 'margin_bottom': 1}}
    return d


MIX = [('text', 5), ('content', 3), ('table', 2), ('image', 0.7), ('add_page', 1.2),
       ('setup', 0.5), ('goto', 0.7), ('running', 0.4), ('norunning', 0.15), ('register', 0.3),
       ('numbering', 0.3), ('context', 0.3), ('save', 0.6), ('format', 0.3)]


def generate(rng, f=None, mix=None, n=None, prefix=''):
    f = f or features(rng)
    W = gen.Words(rng, special=rng.choice([0, 0.1, 0.3]), maxlen=rng.choice([2, 5]),
                  prefix=prefix)
    imgs = gen.Images(rng)
    if f.get('mark'):
        f['marks'] = marks.Maker(rng, f['mark'], f.get('flat', False))
    ttf = ['Open'] if rng.random() < 0.1 else []
    sc = {'setup': gen_setup(rng, ttf), 'ttf': ttf, 'images': imgs.files, 'ops': [],
          'context': W.context(),
          'formats': {'fa': gen.text_style(rng, {'style': 1}), 'fb': {'b': True, 's': 8}}}
    f.update(vars=['one', 'two'], var=0.1, formats=['fa', 'fb'], ttf=ttf)
    weights = [(w, k) for k, w in (mix or MIX)]
    n = n or rng.choice([1, 3, 5, 8, 12])
    ops = sc['ops']
    if f.get('marks'):   # outlines of level 2 need one of level 1 before
        ops.append({'op': 'text', 'desc': {'.': [W.one()], 'outline': {'level': 1}}, 'args': {}})
    for _ in range(n):
        ops.append(gen_op(rng, W, f, imgs, gen.pick(rng, weights)))
    if f.get('marks') and rng.random() < f.get('many', 0.04):
        ops.insert(rng.randint(1, len(ops)), many_labels(rng, W, f))
    if rng.random() < f.get('bulk', 0.03):     # a document of many pages
        ops.insert(rng.randint(0, len(ops)), dict({'op': 'add_page'}, times=rng.choice(
            [12, 33, 65, 129, 260])))
    if f.get('marks'):
        for e in f['marks'].missing(W):
            ops.append({'op': 'text', 'desc': e, 'args': {}})
    return sc


def many_labels(rng, W, f):
    """An index: a paragraph in which every word is a label or leads to one"""
    m = f['marks']
    parts = []
    for _ in range(rng.choice([8, 15, 50, 64, 120, 360])):
        d = {'.': [W.short() + ' ']}
        r = rng.random()
        if r < 0.9:
            d['label'] = m.label()
            m.defined.add(d['label'])
        if r > 0.7 and m.defined:
            d['ref'] = rng.choice(sorted(m.defined))
        parts.append(d)
    return {'op': 'text', 'desc': {'.': parts}, 'args': {}}


def gen_op(rng, W, f, imgs, k):
    op = {'op': k}
    if k == 'text':
        op['desc'] = gen.paragraph(rng, W, f)
        op['args'] = gen.par_args(rng, W, f)
        if f.get('ttf') and op['args'].get('text_align') == 'j':
            op['args']['text_align'] = 'l'
    elif k == 'content':
        op['desc'] = gen.box(rng, W, f, imgs if f['image'] else None)
    elif k == 'table':
        op['desc'] = gen.table_element(rng, W, f, imgs if f['image'] else None)
    elif k == 'image':
        op.update(file=imgs.one(), x=rng.choice([20, 50.5]), y=rng.choice([60, 100.25]))
        r = rng.random()
        if r < 0.4:
            op['width'] = rng.choice([30, 75.5])
        elif r < 0.7:
            op['height'] = rng.choice([20, 60.5])
        elif r < 0.85:
            op.update(width=40, height=30)
        if rng.random() < 0.3:
            op['move'] = rng.choice(['next', 'none'])
    elif k in ('add_page', 'setup'):
        op.update(gen_page_args(rng))
    elif k == 'goto':
        op['page'] = rng.randint(0, 9)
    elif k == 'running':
        op.update(desc=gen_running(rng, W, f), x=rng.choice([10, 40]), y=rng.choice([2, 4.5]),
                  w=rng.choice([150, 200.5]), h=rng.choice([20, 30]))
    elif k == 'register':
        op['family'] = rng.choice(['Open', 'Other'])
    elif k == 'numbering':
        if rng.random() < 0.6:
            op['offset'] = rng.choice([0, 2, 30, 97, 888])
        if rng.random() < 0.5:
            op['style'] = rng.choice(['roman', 'arabic'])
    elif k == 'context':
        op.update(name=rng.choice(['one', 'two']), value=W.some(rng.choice([1, 2])))
        W.vars.discard(op['name'])
    elif k == 'format':
        op.update(name='fa', style=gen.text_style(rng, {'style': 1}))
    elif k == 'save':
        op['plan'] = gen_plan(rng)
    return op


def gen_plan(rng):
    r = rng.random()
    if r < 0.3:
        return {'kind': 'full'}
    if r < 0.7:
        p = {'kind': 'short', 'seed': rng.randint(0, 10**6)}
        if rng.random() < 0.3:
            p['max'] = rng.choice([1, 3, 17, 200])
            if p['max'] < 17:
                p['max'] = 17
        return p
    return {'kind': 'none'}


# ----------------------------------------------------------------- client

class Client:
    """Carries the operations out and keeps the model of what must be seen."""

    def __init__(self, sc, log, pdf_class=None, images=None, dup=_copy.deepcopy):
        from pdfme import PDF
        self.sc = sc
        self.log = log
        setup = dict(sc['setup'])
        for k in setup:
            if k not in ('page_size', 'margin', 'rotate_page', 'page_numbering_offset',
                         'page_numbering_style', 'font_family', 'font_size', 'font_color',
                         'text_align', 'outlines_level'):
                raise Invalid('setup')
        self.size = page_size(setup.get('page_size', 'a4'))
        self.rotate = bool(setup.get('rotate_page', False))
        self.margin = margins(setup.get('margin', 56.693))
        self.offset = setup.get('page_numbering_offset', 0)
        self.numbering = setup.get('page_numbering_style', 'arabic')
        self.level = setup.get('outlines_level', 1)
        self.formats = _copy.deepcopy(sc.get('formats', {}))
        self.context = dict(sc.get('context', {}))
        self.ttf = {k: session.TTF_LOOK for k in sc.get('ttf', ())}
        defaults = {'f': setup.get('font_family', 'Helvetica'), 's': setup.get('font_size', 11),
                    'c': setup.get('font_color', 0.1), 'text_align': setup.get('text_align', 'l')}
        self.b = layout.Builder(self.env(), defaults)
        self.images = images if images is not None else stage.load_images(sc.get('images', {}))
        session.ttf_setup(sc.get('ttf', ()))
        self.pdf = (pdf_class or PDF)(**dup(setup))
        self.pdf.formats.update(dup(sc.get('formats', {})))
        self.pdf.context.update(self.context)
        self.dup = dup
        self.pages = []       # PageModel
        self.roots = []       # flow roots, in order of the operations
        self.extra = []       # running sections on pages
        self.running = []
        self.direct = []      # (page, x, y, w, h, file)
        self.cur = None
        self.saves = 0

    def env(self, **more):
        c = dict(self.context)
        c.update(more)
        return model.Env(_copy.deepcopy(self.formats), c, None, self.ttf)

    # -- pages
    def label(self, i):
        n = i + 1 + self.offset
        return roman(n) if self.numbering == 'roman' else str(n)

    def new_pages(self, args=None):
        """Model the pages the library has made since the last look."""
        while len(self.pages) < len(self.pdf.pages):
            i = len(self.pages)
            args = args or {}
            size = page_size(args['page_size']) if args.get('page_size') is not None \
                else self.size
            rot = args.get('rotate_page')
            rot = self.rotate if rot is None else rot
            m = dict(self.margin)
            if args.get('margin') is not None:
                m.update(margins(args['margin']))
            w, h = size[::-1] if rot else size
            pm = PageModel(w, h, m, self.label(i))
            self.pages.append(pm)
            self.cur = i
            for desc, (x, y, rw, rh) in self.running:
                self.b.env = self.env(**{'$page': pm.label})
                root = self.b.root_content(desc)
                root.boxes = [(i, x, h - y, rw, rh)]
                for n in root.walk():
                    if n.kind == 'par':
                        n.par.pages = {i}
                        if n.par.bullet:
                            n.par.bullet.pages = {i}
                root.running = True
                self.extra.append(root)

    def kw(self, op, names):
        return {k: self.dup(op[k]) for k in names if op.get(k) is not None}

    # -- operations
    def do(self, op, wrap=None):
        """wrap(fn): how the library call is made (faults)."""
        self.log.n('steps')
        self.log.n('op:' + op['op'])
        f = getattr(self, 'op_' + op['op'], None)
        if f is None:
            raise Invalid('op')
        return f(op, wrap or (lambda fn: fn()))

    def op_add_page(self, op, wrap):
        kw = self.kw(op, ('page_size', 'rotate_page', 'margin'))
        for k, v in kw.items():
            (page_size if k == 'page_size' else margins if k == 'margin' else bool)(v)
        for _ in range(max(1, min(300, int(op.get('times', 1))))):
            wrap(lambda: self.pdf.add_page(**kw))
            self.new_pages(kw)

    def op_setup(self, op, wrap):
        kw = self.kw(op, ('page_size', 'rotate_page', 'margin'))
        if kw.get('margin') is not None and len(margins(kw['margin'])) < 4:
            kw['margin'] = dict(self.margin, **margins(kw['margin']))
        if 'page_size' in kw:
            self.size = page_size(kw['page_size'])
        if 'rotate_page' in kw:
            self.rotate = bool(kw['rotate_page'])
        if 'margin' in kw:
            self.margin = margins(kw['margin'])
        wrap(lambda: self.pdf.setup_page(**kw))

    def op_goto(self, op, wrap):
        if self.pages:
            i = op['page'] % len(self.pages)
            wrap(lambda: setattr(self.pdf, 'page_index', i))
            self.cur = i

    def op_running(self, op, wrap):
        r = [session.num(op[k]) for k in 'xywh']
        wrap(lambda: self.pdf.add_running_section(
            self.dup(op['desc']), width=r[2], height=r[3], x=r[0], y=r[1]))
        self.running.append((op['desc'], r))

    def op_norunning(self, op, wrap):
        self.pdf.running_sections = []
        self.running = []

    def op_register(self, op, wrap):
        session.ttf_setup([op['family']])
        self.ttf = dict(self.ttf)
        self.ttf[op['family']] = session.TTF_LOOK

    def op_numbering(self, op, wrap):
        if 'offset' in op:
            self.pdf.page_numbering_offset = self.offset = op['offset']
        if 'style' in op:
            self.pdf.page_numbering_style = self.numbering = op['style']

    def op_context(self, op, wrap):
        self.pdf.context[op['name']] = self.context[op['name']] = op['value']

    def op_format(self, op, wrap):
        self.pdf.formats[op['name']] = self.dup(op['style'])
        self.formats[op['name']] = op['style']

    def flow(self, make, call, wrap):
        """An element put at the current place and continued on new pages."""
        if not self.pages:
            self.op_add_page({'op': 'add_page'}, lambda fn: fn())
        self.b.env = self.env()
        n0 = len(self.pages)
        cur = self.cur
        keep = self.b.snapshot()
        root = make()
        y0 = self.pdf.page.y
        pm = self.pages[cur]
        x, ytop, w, h = pm.box(cur)[1:]
        root.boxes = [(cur, x, pm.h - y0, w, pm.h - y0 - pm.m.get('bottom', 0))]
        root.op = len(self.roots)
        self.roots.append(root)

        def reached():
            self.new_pages()
            for i in range(n0 + len(root.boxes) - 1, len(self.pages)):
                root.boxes.append(self.pages[i].box(i))

        try:
            return wrap(lambda: call(self.pdf))
        except session.TooManyPages as e:
            raise Violation('endless', '%s: %s' % (root.name, e))
        except Exception as e:
            reached()
            if 'fit' in str(e) and layout.may_not_fit(
                    root, self.images, min(p.box(0)[4] for p in self.pages[-3:])):
                raise Invalid('does not fit')
            raise
        finally:
            reached()

    def op_text(self, op, wrap):
        a = op.get('args', {})
        args = {k: a[k] for k in layout.PAR if k in a}
        if 'text_align' not in args:
            args['text_align'] = self.b.defaults['text_align']
        d = self.dup(op['desc'])
        kw = self.dup(a)
        self.flow(lambda: self.b.root_text(op['desc'], **args),
                  lambda pdf: pdf.text(d, **kw), wrap)

    def op_content(self, op, wrap):
        d = self.dup(op['desc'])
        self.flow(lambda: self.b.root_content(op['desc']), lambda pdf: pdf.content(d), wrap)

    def op_table(self, op, wrap):
        d = self.dup(op['desc'])
        if not isinstance(d, dict) or 'table' not in d:
            raise Invalid('table')
        kw = {k: d[k] for k in ('widths', 'borders', 'fills') if k in d}
        self.flow(lambda: self.b.root_table(op['desc']['table'], op['desc'].get('style'), **kw),
                  lambda pdf: pdf.table(d['table'], style=d.get('style'), **kw), wrap)

    def op_image(self, op, wrap):
        if op['file'] not in self.images:
            raise Invalid('image')
        if not op.get('here') or not self.pages:
            self.op_add_page({'op': 'add_page'}, lambda fn: fn())
        kw = self.kw(op, ('x', 'y', 'width', 'height', 'move'))
        iw, ih = self.images[op['file']]['size']
        w, h = op.get('width'), op.get('height')
        if w is None and h is None:
            w = self.pages[self.cur].box(0)[3]
        if w is None:
            w = h * iw / ih
        if h is None:
            h = w * ih / iw
        i = self.cur
        wrap(lambda: self.pdf.image(op['file'], **kw))
        self.direct.append((i, op['x'], op['y'], w, h, op['file']))
        self.op_add_page({'op': 'add_page'}, lambda fn: fn())

    def op_save(self, op, wrap):
        if not self.pages:
            return
        s = world.Sink(op.get('plan'), self.log)
        wrap(lambda: self.pdf.output(s))
        self.check(bytes(s.got))

    # -- checking
    def final(self, plan=None):
        if not self.pages:
            self.op_add_page({'op': 'add_page'}, lambda fn: fn())
        s = world.Sink(plan, self.log)
        self.pdf.output(s)
        return self.check(bytes(s.got))

    def check(self, data):
        self.saves += 1
        self.log.n('saves')
        v = observe.View(data)
        self.check_view(v)
        return v

    def check_view(self, v):
        check_pages(v, self.pages)
        v.images = take_direct(v.images, self.direct, self.images)
        layout.check_view(v, self.b, self.roots + self.extra, self.images, self.log)
        overlap(self.roots)
        marks.check(v, self.roots, self.extra, self.level, self.log)
        self.log.n('evaluations')
        self.log.n('pages', len(v.pages))


def check_pages(v, pages):
    if len(v.pages) != len(pages):
        raise Violation('pages', 'the file has %d pages, %d were added' % (
            len(v.pages), len(pages)))
    for i, (p, q) in enumerate(zip(v.pages, pages)):
        if p.box[0] or p.box[1] or abs(p.box[2] - q.w) > 0.6 or abs(p.box[3] - q.h) > 0.6:
            raise Violation('page-size', 'page %d is %r, it should be %.2f by %.2f' % (
                i + 1, p.box, q.w, q.h))


def take_direct(events, direct, images):
    left = list(events)
    for i, x, y, w, h, f in direct:
        hit = [e for e in left if e['page'] == i and images[f]['match'](e)]
        if not hit:
            raise Violation('lost-image', 'the image %s is not shown on page %d' % (f, i + 1))
        ok = [e for e in hit if abs(e['x'] - x) < 0.01 and abs(e['y'] - y) < 0.01 and
              abs(e['w'] - w) < 0.5 and abs(e['h'] - h) < 0.5]
        if not ok:
            e = hit[0]
            raise Violation('misplaced-image', 'the image %s is shown at %.2f, %.2f, %.2f by %.2f; '
                            'asked for %.2f, %.2f, %.2f by %.2f' % (
                                f, e['x'], e['y'], e['w'], e['h'], x, y, w, h))
        left.remove(ok[0])
    return left


def overlap(roots):
    """Elements put on pages one after the other do not overlap."""
    by_page = {}
    for r in roots:
        for n in r.walk():
            for a in n.atoms:
                by_page.setdefault(a.page, []).append((r, a))
    for atoms in by_page.values():
        for i, (r, a) in enumerate(atoms):
            for q, b in atoms[:i]:
                if r is q:
                    continue
                if a.x0 < b.x1 - 0.3 and b.x0 < a.x1 - 0.3 and \
                        a.y < b.top - 0.1 and b.y < a.top - 0.1:
                    raise Violation('overlap', '%s (%s) overlaps %s (%s) on page %d' % (
                        layout.show(a), a.node.name, layout.show(b), b.node.name, a.page + 1))


REAL = ['pdfme.pdf', 'pdfme.text', 'pdfme.table', 'pdfme.content', 'pdfme.image', 'pdfme.fonts',
        'pdfme.page', 'pdfme.base', 'pdfme.parser', 'pdfme.encoders', 'pdfme.utils',
        'pdfme.color', 'Pillow', 'fontTools', 'zlib']
STUBS = ['output sink', 'disk under /simdisk', 'random source', 'clock']
