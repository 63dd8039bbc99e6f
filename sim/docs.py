"""Whole documents described by one dict: sections, page ranges, running
sections, page numbers and footnotes. A generator of descriptions, and what
the pages of the built file must show."""
import copy as _copy
import re
import sys

from . import gen, layout, marks, model, observe, program, session, stage, world
from .core import Violation, Invalid
from .program import PageModel, page_size, margins, roman

STYLE = {'f': 'f', 's': 's', 'c': 'c', 'text_align': 'text_align', 'line_height': 'line_height',
         'indent': 'indent'}
NOTE = '\x01'


# ------------------------------------------------------------- generators

class Notes:
    """Footnotes for the paragraphs of one document."""

    def __init__(self, rng, W, rate, limit=60):
        self.rng, self.W, self.rate, self.left = rng, W, rate, limit
        self.formats = []
        self.made = []

    def put(self, elems):
        r = self.rng
        if self.left <= 0 or r.random() >= self.rate:
            return
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            self.left -= 1
            at = r.randint(0, len(elems))
            elems.insert(at, {'.': [' ' + self.W.short(), self.note(), ' ']})

    def note(self):
        r = self.rng
        n = {'footnote': self.text()}
        if self.made and r.random() < 0.15:     # another note with the same text
            n['footnote'] = _copy.deepcopy(r.choice(self.made[-4:]))
        self.made.append(n['footnote'])
        if r.random() < 0.1:
            n['label'] = 'fn%d' % self.left
        if r.random() < 0.05:
            n['style'] = {'c': 'red'}
        return n

    def text(self):
        r, W = self.rng, self.W
        x = r.random()
        t = W.some(r.choice([1, 2, 4, 4, 9, 25 if r.random() < 0.3 else 5]))
        if x < 0.5:
            return t
        if x < 0.6:
            return [t + ' ', {'.b': [W.one()]}]
        if x < 0.95:
            d = {'.': [t]}
            if r.random() < 0.3:
                d = {'.c:red': [t + ' ', {'.i': [W.one()]}]}
            if r.random() < 0.5:
                d['style'] = gen.text_style(r, {'style': 1, 'rise': 0, 'bg': 0})
                d['style'].pop('s', None)
            elif self.formats and r.random() < 0.5:
                d['style'] = r.choice(self.formats)
            return d
        return {'.': t}


def gen_running(rng, W, kind=None):
    """A running section of a document: where it is and what it shows."""
    kind = kind or rng.choice(['top', 'bottom', 'side', 'free'])
    d = {}
    small = {'s': rng.choice([4, 5]), 'margin_bottom': 0, 'line_height': 1, 'text_align': 'l',
             'indent': 0, 'r': 0}
    line = [W.short() + ' ', {'var': '$page'}] if rng.random() < 0.7 else [W.some(2)]
    d['content'] = [{'.': line}]
    if kind == 'side':
        d['width'] = rng.choice(['left', 'right'])
        d['x'] = rng.choice(['right', 'right', 0]) if d['width'] == 'right' else \
            rng.choice([0, None, 0])
        if d['x'] is None and rng.random() < 0.5:
            del d['x']
        d['content'] = [{'.': [W.short()]}]
        small['s'] = 4
        d['y'] = rng.choice(['top', 5, 60.5])
        if rng.random() < 0.5:
            d['height'] = rng.choice(['top', 'bottom', 'full', 30, None])
    else:
        if rng.random() < 0.7:
            d['width'] = rng.choice(['full', None, 150, 120.5])
        if rng.random() < 0.7:
            d['x'] = rng.choice(['left', 'left', 0, 12.5, None])
        if kind == 'top':
            d['y'] = rng.choice([2, 5.5, 0])
            d['height'] = rng.choice(['top', 20, 'top'])
        elif kind == 'bottom':
            d['y'] = 'bottom'
            d['height'] = rng.choice(['bottom', 18.5, 'bottom'])
        else:
            if rng.random() < 0.7:
                d['y'] = rng.choice([40, 'top', None, 0])
            if rng.random() < 0.7:
                d['height'] = rng.choice(['full', None, 40, 'bottom', 'top'])
    if rng.random() < 0.5:
        small['c'] = gen.color(rng)
    if rng.random() < 0.3 and kind != 'side':
        small['text_align'] = rng.choice(['c', 'r'])
    d['style'] = small
    return d


def full_margin(rng):
    m = program.gen_margin(rng)
    return m


def page_args(rng, p):
    a = {}
    if rng.random() < p:
        a['page_size'] = program.gen_size(rng)
    if rng.random() < p:
        a['rotate_page'] = rng.random() < 0.6
    if rng.random() < p:
        a['margin'] = full_margin(rng)
    return a


def gen_range(rng):
    def one():
        r = rng.random()
        if r < 0.5:
            return str(rng.choice([0, 0, 1, 1, 2, 3, 5]))
        lo = rng.choice(['', '0', '1', '1', '2', '3'])
        hi = rng.choice(['', str(int(lo or 0) + rng.choice([1, 2, 4])), '30'])
        step = ':%d' % rng.choice([1, 2, 3]) if rng.random() < 0.3 else ''
        return '%s:%s%s' % (lo, hi, step)
    return rng.choice([',', ', ', ' ,']).join(one() for _ in range(rng.choice([1, 1, 2])))


def features(rng):
    f = program.features(rng)
    f['var'] = 0.1
    f['vars'] = ['one', 'two', 'three', 'four']
    f['formats'] = ['fa', 'fb']
    f['notes_rate'] = rng.choice([0, 0.1, 0.3, 0.6])
    f['ranges'] = rng.choice([0, 1, 2, 3])
    f['runs_n'] = rng.choice([0, 1, 2, 4])
    f['sections'] = rng.choice([1, 1, 2, 3])
    f['page_p'] = rng.choice([0, 0.3, 0.6])
    f['cols'] = rng.choice([0, 0, 0.3])
    return f


def generate(rng, f=None, prefix=''):
    f = f or features(rng)
    W = gen.Words(rng, special=rng.choice([0, 0.1, 0.3]), maxlen=rng.choice([2, 5]),
                  prefix=prefix)
    imgs = gen.Images(rng)
    if f.get('mark'):
        f['marks'] = marks.Maker(rng, f['mark'])
    notes = None
    if f['notes_rate']:
        notes = f['notes'] = Notes(rng, W, f['notes_rate'])
        notes.formats = f['formats']
    doc = {}
    st = {'page_size': program.gen_size(rng), 'margin': full_margin(rng)}
    if rng.random() < 0.3:
        st['rotate_page'] = rng.random() < 0.6
    if rng.random() < 0.4:
        st['page_numbering_style'] = rng.choice(['roman', 'arabic'])
    if rng.random() < 0.2:
        st['page_numbering_offset'] = rng.choice([0, 3, 40, 97, 398, 3799])
    if rng.random() < 0.3:
        st['outlines_level'] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        st['f'] = rng.choice(gen.FAMILIES)
    if rng.random() < 0.3:
        st['s'] = rng.choice([8, 9.5, 12])
    if rng.random() < 0.3:
        st['c'] = gen.color(rng)
    if rng.random() < 0.3:
        st['text_align'] = rng.choice(['l', 'c', 'r', 'j'])
    if rng.random() < 0.2:
        st['line_height'] = rng.choice([1, 1.5])
    if rng.random() < 0.2:
        st['margin_bottom'] = rng.choice([0, 10])
    if rng.random() < 0.2:
        st['b'] = True
    if rng.random() < 0.1:
        st = {}
    if st:
        doc['style'] = st
    numbered = 'page_numbering_style' in st
    formats = {'fa': gen.text_style(rng, {'style': 1}), 'fb': {'b': True, 's': 8},
               'sec': dict(page_args(rng, 0.5), c='blue')}
    if rng.random() < 0.3:
        formats['$footnote'] = {'r': rng.choice([0.5, 0.3, 0]), 's': rng.choice([5, 6, 7])}
    if rng.random() < 0.3:
        formats['$footnotes'] = {'s': rng.choice([7, 8, 10]), 'c': rng.choice([0, 'green'])}
        if rng.random() < 0.3:
            formats['$footnotes']['text_align'] = rng.choice(['l', 'j'])
    doc['formats'] = formats
    names = []
    if f['runs_n']:
        doc['running_sections'] = {}
        kinds = ['top', 'bottom', 'side', 'free']
        for i in range(f['runs_n']):
            names.append(rng.choice(['head', 'foot', 'zz', 'Aa']) + str(i))
            doc['running_sections'][names[-1]] = gen_running(rng, W)
    if f['ranges']:
        doc['per_page'] = []
        for _ in range(f['ranges']):
            p = {'pages': gen_range(rng)}
            if rng.random() < 0.6:
                p['style'] = page_args(rng, 0.6)
            if names and rng.random() < 0.6:
                p['running_sections'] = {}
                if rng.random() < 0.6:
                    p['running_sections']['include'] = rng.sample(
                        names, rng.randint(1, len(names)))
                if rng.random() < 0.6:
                    p['running_sections']['exclude'] = rng.sample(
                        names, rng.randint(1, len(names)))
            doc['per_page'].append(p)
    doc['sections'] = []
    for k in range(f['sections']):
        s = gen.box(rng, W, f, imgs if f['image'] else None, n=rng.choice(f['elems'] + [6]))
        first = {'.': [W.one() + ' ', W.short()]}
        if f.get('marks') and k == 0:
            first['outline'] = {'level': 1}
        if not s['content'] or k == 0 or rng.random() < 0.9:
            s['content'].insert(0, first)
        else:
            s['content'].insert(0, W.one())
        ss = s.get('style', {})
        ss = {a: b for a, b in ss.items() if not a.startswith('margin')}
        ss.update(page_args(rng, f['page_p']))
        if rng.random() < 0.25:
            ss['page_numbering_reset'] = True
        if numbered and rng.random() < 0.3:
            ss['page_numbering_style'] = rng.choice(['roman', 'arabic'])
        if 'page_numbering_offset' in st and rng.random() < 0.3:
            ss['page_numbering_offset'] = rng.choice([0, 7, 492])
        if rng.random() < 0.08:
            ss = 'sec'
        if ss:
            s['style'] = ss
        else:
            s.pop('style', None)
        if names and rng.random() < 0.8:
            s['running_sections'] = rng.sample(names, rng.randint(1, len(names)))
        doc['sections'].append(s)
    if f.get('marks'):
        doc['sections'][-1]['content'] += f['marks'].missing(W)
    return {'doc': doc, 'context': W.context(), 'images': imgs.files}


# ------------------------------------------------------------------ model

def ranges(s):
    out = []
    for part in s.split(','):
        p = part.split(':')
        try:
            if len(p) == 1:
                out.append((int(p[0]), int(p[0]) + 1, 1))
            else:
                out.append((int(p[0]) if p[0].strip() else 0,
                            int(p[1]) if p[1].strip() else sys.maxsize,
                            int(p[2]) if len(p) > 2 and p[2].strip() else 1))
        except ValueError:
            raise Invalid('range')
        if len(p) > 3 or out[-1][2] < 1 or out[-1][0] < 0:
            raise Invalid('range')
    return out


def within(rs, n):
    return any(n in range(*r) for r in rs)


def clean(view, expected):
    """Split the numbers of footnotes from the words they are glued to.
    expected: texts of words with marks. -> [(word, number)] in painting
    order"""
    out = []
    for o in view.words:
        if not any(ch.isdigit() for ch in o.t):
            continue
        t = re.sub(r'\d+', NOTE, o.t)
        if t not in expected:
            continue
        m = re.search(r'\d+', o.t)
        out.append((o, int(m.group())))
        a, b = m.span()
        o.cx = o.cx[:a + 1] + o.cx[b:]
        o.t = t
        for s in o.segs:
            s[0] = re.sub(r'\d+', NOTE, s[0])
    return out


class Doc:
    """One document: built by the library, and modelled."""

    def __init__(self, sc, log, images=None):
        self.sc = sc
        self.log = log
        self.doc = sc['doc']
        self.images = images if images is not None else stage.load_images(sc.get('images', {}))
        d = self.doc
        if not isinstance(d, dict) or not isinstance(d.get('sections'), list) or \
                not d['sections']:
            raise Invalid('document')
        for s in d['sections']:
            if not isinstance(s, dict) or not isinstance(s.get('content'), list) or \
                    not s['content']:
                raise Invalid('section')
        self.formats = {'$footnote': {'r': 0.5, 's': 6}, '$footnotes': {'s': 10, 'c': 0}}
        self.formats.update(d.get('formats', {}))
        self.context = dict(sc.get('context', {}))

    def env(self, **more):
        c = dict(self.context)
        c.update(more)
        return model.Env(_copy.deepcopy(self.formats), c)

    # -- building
    def build(self, doc=None, context=None, wrap=None):
        """-> the library's object, run. Raises what it raises."""
        from pdfme.document import PDFDocument
        doc = _copy.deepcopy(self.doc) if doc is None else doc
        context = dict(self.context) if context is None else context
        wrap = wrap or (lambda fn: fn())

        def go():
            o = PDFDocument(doc, context)
            o.run()
            return o
        self.log.n('steps')
        self.log.n('documents')
        try:
            return wrap(go)
        except session.TooManyPages as e:
            raise Violation('endless', str(e))
        except Exception as e:
            if 'fit' in str(e):
                self.judge_unfit(str(e))
            raise

    def base(self):
        st = self.doc.get('style', {})
        return {'page_size': st.get('page_size', 'a4'), 'rotate_page': st.get('rotate_page', False),
                'margin': st.get('margin', 56.693)}

    def section_style(self, s):
        st = dict(self.doc.get('style', {}))
        st.update(self.env().style(s.get('style')))
        return st

    def builder(self):
        st = self.doc.get('style', {})
        return layout.Builder(self.env(), {STYLE[k]: st[k] for k in STYLE if k in st})

    def judge_unfit(self, msg):
        """The library says that something does not fit: can it be so?"""
        b = self.builder()
        ways = [self.base()]
        for s in self.doc['sections']:
            ways.append({k: v for k, v in self.section_style(s).items() if k in ways[0]})
        for p in self.doc.get('per_page', []):
            ways.append({k: v for k, v in p.get('style', {}).items() if k in ways[0]})
        sizes = [page_size(w['page_size']) for w in ways if 'page_size' in w]
        ms = [margins(w['margin']) for w in ways if 'margin' in w]
        h = min(min(s) for s in sizes) - max(m['top'] + m['bottom'] for m in ms)
        w = min(min(s) for s in sizes) - max(m['left'] + m['right'] for m in ms)
        notes = 0
        for s in self.doc['sections']:
            root = b.root_content(dict(s, style=self.section_style(s)))
            root.boxes = [(0, 0, h, w, h)]
            notes += self.notes_height(root)
            if layout.may_not_fit(root, self.images, h):
                raise Invalid('does not fit')
        room = h - notes - 40
        for s in self.doc['sections']:
            root = b.root_content(dict(s, style=self.section_style(s)))
            root.boxes = [(0, 0, h, w, h)]
            if room < 100 or layout.may_not_fit(root, self.images, room):
                raise Invalid('does not fit')
        raise Violation('unfit', msg[:200])

    def notes_height(self, root):
        w = min(b[3] for b in root.boxes)
        return sum(self.note_height(t.value, w) for nd in root.walk() if nd.kind == 'par'
                   for t in nd.par.tags() if t.kind == 'footnote')

    def note_height(self, desc, w):
        b = self.builder()
        n = b.root_content({'style': '$footnotes', 'content': [self.note(desc, 1)]})
        size, chars = 0, 10
        for m in n.walk():
            if m.kind == 'par':
                for wd in m.par.words:
                    chars += len(wd.t) + 1
                    size = max([size] + [s.style.get('s', 11) for s in wd.segs])
        return (int(chars * size * 0.7 / (w * 0.8)) + 1) * size * 1.6 + 15

    def note(self, desc, number):
        if not isinstance(desc, dict):
            desc = {'.': desc if isinstance(desc, (str, list, tuple)) else str(desc)}
        st = dict(self.env().style(desc.get('style')))
        st.update(list_text='%d ' % number, list_style='$footnote')
        return dict(desc, style=st)

    # -- checking
    def check(self, v):
        """v: View of the saved file."""
        log = self.log
        doc = self.doc
        sections = doc['sections']
        base = self.base()
        per_page = [(ranges(p['pages']), p) for p in doc.get('per_page', [])]
        firsts = []
        for s in sections:
            ws = model.split(model.runs(s['content'][0], {}, self.env()))
            if not ws or NOTE in ws[0].t:
                raise Invalid('section start')
            firsts.append(ws[0].t)
        if len(set(firsts)) < len(firsts):
            raise Invalid('section start')
        starts = []
        for t in firsts:
            at = [w.page for w in v.words if w.t == t]
            if not at:
                raise Violation('lost', 'the first word %r of a section is not shown' % t)
            starts.append(at[0])
        if starts[0] != 0 or any(b <= a for a, b in zip(starts, starts[1:])):
            raise Violation('pages', 'sections begin on pages %r' % [s + 1 for s in starts])
        n = len(v.pages)
        b = self.builder()
        self.pages = []
        self.roots = []
        self.extra = extra = []
        offset = doc.get('style', {}).get('page_numbering_offset', 0)
        numbering = doc.get('style', {}).get('page_numbering_style', 'arabic')
        section_of = {}
        for k, s in enumerate(sections):
            st = self.section_style(s)
            offset = st.get('page_numbering_offset', offset)
            numbering = st.get('page_numbering_style', numbering)
            if st.get('page_numbering_reset', False):
                offset = -starts[k]
            end = starts[k + 1] if k + 1 < len(sections) else n
            for i in range(starts[k], end):
                section_of[i] = k
                a = dict(base)
                a.update({x: st[x] for x in base if x in st})
                names = list(dict.fromkeys(s.get('running_sections', [])))
                for rs, p in per_page:
                    if not within(rs, i):
                        continue
                    a.update({x: y for x, y in p.get('style', {}).items() if x in base})
                    r = p.get('running_sections', {})
                    names = [x for x in names if x not in r.get('exclude', [])]
                    names += [x for x in dict.fromkeys(r.get('include', [])) if x not in names]
                w, h = page_size(a['page_size'])
                if a['rotate_page']:
                    w, h = h, w
                m = margins(a['margin'])
                if len(m) < 4:
                    raise Invalid('margin')
                num = i + 1 + offset
                if num < 1:
                    raise Invalid('number')
                pm = PageModel(w, h, m, roman(num) if numbering == 'roman' else str(num))
                self.pages.append(pm)
                for name in names:
                    if name not in doc.get('running_sections', {}):
                        raise Invalid('running section')
                    extra.append(self.running(b, doc['running_sections'][name], i, pm))
        program.check_pages(v, self.pages)
        b.env = self.env()
        marked = {}
        for k, s in enumerate(sections):
            root = b.root_content(dict(s, style=self.section_style(s)))
            root.op = k
            end = starts[k + 1] if k + 1 < len(sections) else n
            root.boxes = [self.pages[i].box(i) for i in range(starts[k], end)]
            self.roots.append(root)
            for nd in root.walk():
                if nd.kind != 'par':
                    continue
                for wd in nd.par.words:
                    for sg in wd.segs:
                        for t in sg.tags:
                            if t.kind == 'footnote':
                                if wd.t in marked or wd.t == NOTE or wd.t.count(NOTE) > 1:
                                    raise Invalid('mark')
                                marked[wd.t] = t
        refs = clean(v, set(marked))
        seen = {}
        for o, num in refs:
            seen.setdefault(o.page, []).append((o, num))
        note_roots = []
        tops = {}
        for i, rs in sorted(seen.items()):
            for k, (o, num) in enumerate(rs):
                if num != k + 1:
                    raise Violation('footnote-number', 'the references to footnotes on page %d '
                                    'are numbered %r' % (i + 1, [q for _, q in rs]))
            root = b.root_content({'style': '$footnotes', 'content': [
                self.note(marked[o.t].value, num) for o, num in rs]})
            root.boxes = [self.pages[i].box(i)]
            root.op = len(sections) + i
            for nd in root.walk():
                if nd.kind == 'par':
                    if not nd.par.words:
                        raise Invalid('a note without text')
                    nd.par.pages = {i}
                    if nd.par.bullet:
                        nd.par.bullet.pages = {i}
            note_roots.append(root)
            log.state('notes', len(rs), len(seen))
        self.take_rules(v, note_roots)
        body = list(self.roots)
        b.shorter = range(n) if seen else ()    # the room for notes that came later, too
        layout.check_view(v, b, body + extra + note_roots, self.images, log)
        check_running_order(extra)
        low = {}
        for r in body:
            for nd in r.walk():
                for a in nd.atoms:
                    low[a.page] = min(low.get(a.page, a), a, key=lambda q: q.y)
        for r in note_roots:
            i = r.boxes[0][0]
            high = max((a for nd in r.walk() for a in nd.atoms), key=lambda a: a.top, default=None)
            if high is None:
                continue
            if i in low and low[i].y < high.top - 0.1:
                raise Violation('footnote-place', 'on page %d the note %s reaches above %s' % (
                    i + 1, layout.show(high), layout.show(low[i])))
            y = [ln['p'][0][1] for ln in self.rules if ln['page'] == i][0]
            if y < high.top - 0.5 or i in low and y > low[i].y + 1:
                raise Violation('footnote-place', 'on page %d the rule above the notes is at %.2f, '
                                'the notes begin at %.2f and the body ends at %.2f' % (
                                    i + 1, y, high.top, low[i].y if i in low else 0))
        program.overlap(body + note_roots)
        marks.check(v, body + note_roots, extra, doc.get('style', {}).get('outlines_level', 1), log)
        drawn = {e['page'] for e in v.lines + v.rects}
        for i in range(n):   # no page of a section without anything of it
            root = self.roots[section_of[i]]
            if i not in low and i not in drawn and not layout.may_not_fit(
                    root, self.images, self.pages[i].box(i)[4] - self.notes_height(root)):
                raise Violation('empty-page', 'page %d shows nothing of its section' % (i + 1))
        log.n('evaluations')
        log.n('pages', n)
        log.n('notes', len(refs))
        log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])
        log.state('doc', n, len(sections), len(extra), len(refs))
        return v

    def take_rules(self, v, note_roots):
        """The short rule above the notes of a page."""
        self.rules = []
        for r in note_roots:
            i, x, ytop, w, h = r.boxes[0]
            hit = [ln for ln in v.lines if ln['page'] == i and len(ln['p']) == 2 and
                   abs(ln['w'] - 0.5) < 0.01 and abs(ln['p'][0][0] - x) < 0.05 and
                   abs(ln['p'][1][0] - x - 150) < 0.05 and
                   abs(ln['p'][0][1] - ln['p'][1][1]) < 0.01 and
                   model.same_color(ln['color'], (0,)) and not ln['dash'][0]]
            if not hit:
                raise Violation('footnote-place', 'no rule above the notes of page %d' % (i + 1))
            ln = hit[-1]
            self.rules.append(ln)
            v.lines.remove(ln)

    def running(self, b, desc, i, pm):
        m = pm.m
        r = {}
        words = {
            'width': {'left': m['left'], 'right': m['right'], 'full': pm.w,
                      None: pm.w - m['left'] - m['right']},
            'height': {'top': m['top'], 'bottom': m['bottom'], 'full': pm.h,
                       None: pm.h - m['top'] - m['bottom']},
            'x': {'left': m['left'], 'right': pm.w - m['right'], None: 0},
            'y': {'top': m['top'], 'bottom': pm.h - m['bottom'], None: 0}}
        for k, t in words.items():
            q = desc.get(k)
            if isinstance(q, bool) or not (isinstance(q, (int, float)) or q in t):
                raise Invalid('rectangle')
            r[k] = t[q] if q is None or isinstance(q, str) else q
        b.env = self.env(**{'$page': pm.label})
        root = b.root_content({k: q for k, q in desc.items()})
        root.boxes = [(i, r['x'], pm.h - r['y'], r['width'], r['height'])]
        root.running = True
        for nd in root.walk():
            if nd.kind == 'par':
                nd.par.pages = {i}
                if nd.par.bullet:
                    nd.par.bullet.pages = {i}
        return root


def check_running_order(extra):
    """Running sections are drawn in the order they are listed."""
    last = {}
    for r in extra:
        at = [o.order for nd in r.walk() if nd.kind == 'par' for o in nd.par.obs]
        if not at:
            continue
        i = r.boxes[0][0]
        if i in last and min(at) < last[i]:
            raise Violation('running-order', 'the running sections of page %d are not drawn in '
                            'the order they are listed' % (i + 1))
        last[i] = max(at)


REAL = program.REAL + ['pdfme.document']
STUBS = program.STUBS
