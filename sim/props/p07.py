"""Every document is finished in a bounded number of pages, or an error is raised."""
import copy
import re
import sys

from .. import docs, gen, layout, model, observe, program, session, stage, world
from ..core import Invalid, Violation

ID = 'P07'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 200000}
FROZEN = ('kind',)
TECHNIQUE = ('seeded programs and documents with parts that are too large for the page (words, '
             'fonts, pictures, groups, cells, margins, running sections, footnotes) on pages of '
             'any size run under a budget of pages and of steps; every page must show something '
             'of the element it was added for, and only an error may leave something out')
LEVEL_NOTE = ('programs are sampled from one seed; the library is real, the destination, disk, '
              'clock and random source are simulated')
STEPS = 20_000_000      # calls and jumps of one operation
PAGES = 250

BULLET = re.compile(r'Zz\d+$')
WORD = 'abcdefghij'


# ------------------------------------------------------------- generators

class Big:
    """Makes parts of a good description too large."""

    def __init__(self, rng, rate, hard=True):
        self.rng = rng
        self.hard = hard        # also what may not fit at all
        self.rate = rate
        self.n = 0

    def style(self, st):
        r = self.rng
        if not self.hard:
            st[r.choice(['margin_left', 'margin_right', 'indent'])] = r.choice([60, 120])
            return
        k = r.choice(['s', 's', 'line_height', 'indent', 'list_indent', 'margin', 'margin',
                      'cell_margin', 'min_height', 'image_place', 'border_width', 'list_style',
                      'shrink'])
        if k == 's':
            st['s'] = r.choice([40, 90, 200, 900])
        elif k == 'line_height':
            st[k] = r.choice([4, 20, 100])
        elif k == 'indent':
            st[k] = r.choice([120, 350, 900])
        elif k == 'list_indent':
            st['list_text'] = self.bullet()
            st[k] = r.choice([150, 350, 900])
        elif k == 'margin':
            st['margin_' + r.choice(['left', 'right', 'top', 'bottom'])] = r.choice(
                [60, 150, 400, 1000])
        elif k == 'cell_margin':
            st[k + r.choice(['', '_left', '_right', '_top', '_bottom'])] = r.choice(
                [30, 100, 400, 1000])
        elif k == 'min_height':
            st[k] = r.choice([40, 200, 800, 0])
        elif k == 'image_place':
            st[k] = r.choice(['flow', 'normal'])
        elif k == 'border_width':
            st[k] = r.choice([20, 100, 500])
        elif k == 'shrink':
            st[k] = True
        elif k == 'list_style':
            st['list_text'] = self.bullet()
            st[k] = {'s': r.choice([40, 300])}

    def bullet(self):
        self.n += 1
        return 'Zz%d ' % self.n

    def walk(self, d):
        """d: a description; changed in place."""
        r = self.rng
        if isinstance(d, list):
            for i, x in enumerate(d):
                if isinstance(x, str):
                    if x.strip() and r.random() < self.rate * 0.3:
                        ws = x.split(' ')
                        k = r.randrange(len(ws))
                        if ws[k] and '\n' not in ws[k]:
                            ws[k] += WORD * r.choice([6, 12, 40])
                            d[i] = ' '.join(ws)
                else:
                    self.walk(x)
        elif isinstance(d, dict):
            if r.random() < self.rate and not isinstance(d.get('style'), str):
                self.style(d.setdefault('style', {}))
                if not any(k.startswith('.') for k in d):
                    d['style'].pop('list_text', None)
            if 'cols' in d and self.hard and r.random() < self.rate:
                d['cols'] = dict(d['cols'])
                if r.random() < 0.5:
                    d['cols']['count'] = r.choice([4, 8, 30])
                else:
                    d['cols']['gap'] = r.choice([0, 100, 300, 900])
            if 'table' in d and r.random() < self.rate:
                overlap(r, d['table'])
            for k, v in list(d.items()):
                if k in ('style', 'cols', 'borders', 'fills', 'widths', 'var',
                         'running_sections'):
                    continue
                if isinstance(v, (list, dict)):
                    self.walk(v)


def overlap(rng, t):
    """Spans over cells which come from a row above."""
    cols = len(t[0])
    left = {}
    for r, row in enumerate(t):
        over = 0
        for c in range(cols):
            if over:
                over -= 1
                row[c] = None
            elif left.get(c, 0):
                left[c] -= 1
                row[c] = None
            else:
                if not isinstance(row[c], dict):
                    row[c] = {'.': row[c] or ''}
                row[c].pop('colspan', None)
                row[c].pop('rowspan', None)
                rs = rng.choice([1, 1, 2, 3])
                cs = rng.choice([1, 1, 2]) if rs == 1 else 1
                rs, cs = min(rs, len(t) - r), min(cs, cols - c)
                if rs > 1:
                    row[c]['rowspan'] = rs
                if cs > 1:
                    row[c]['colspan'] = cs
                left[c] = rs - 1
                over = cs - 1


def tall_images(rng, files):
    for f in files.values():
        if rng.random() < 0.3:
            w, h = rng.choice([(3, 60), (2, 200), (8, 40), (60, 2)])
            n = int(f.get('n', 0))
            f['size'] = [w, h + len(files) + n]


def sizes(rng, f):
    r = rng.random()
    if r < 0.15:
        return rng.choice(['a5', 'a4'])
    if r < 0.5:
        return [rng.choice([160, 250, 420]), rng.choice([120, 200, 300])]
    if r < 0.8:
        return [rng.choice([40, 80, 300]), rng.choice([30, 60, 90, 300])]
    return rng.choice([[20, 20], [12, 200], [200, 12], [60, 900], [900, 60], 100])


def margin(rng):
    r = rng.random()
    if r < 0.7:
        return rng.choice([0, 5, 10, 20])
    if r < 0.9:
        return [rng.choice([0, 10, 40, 70]) for _ in range(4)]
    return rng.choice([50, 100, 149, 150, 400])


def features(rng):
    f = program.features(rng)
    f.update(mark=0, long=rng.choice([3, 10, 30]), elems=[1, 2, 3],
             rows=[1, 2, 4], br=rng.choice([0, 0.1]), list=rng.choice([0, 0.2]))
    return f


MIX = [('text', 4), ('content', 4), ('table', 4), ('image', 0.5), ('add_page', 0.7),
       ('running', 0.5), ('setup', 0.4)]


def generate(rng, tier, index):
    fits = rng.random() < 0.3
    big = Big(rng, rng.choice([0, 0.05, 0.15, 0.4]), not fits)
    if not fits and rng.random() < 0.35:
        f = docs.features(rng)
        f.update(mark=0, long=rng.choice([3, 10, 20]), elems=[1, 3, 5], rows=[1, 2, 4],
                 notes_rate=rng.choice([0, 0.3, 0.8]), sections=rng.choice([1, 1, 2]),
                 runs_n=rng.choice([0, 0, 1]), ranges=0)
        sc = docs.generate(rng, f)
        d = sc['doc']
        st = d.setdefault('style', {})
        st['page_size'] = sizes(rng, f)
        st['margin'] = margin(rng)
        for s in d['sections']:
            big.walk(s)
            if isinstance(s.get('style'), dict):
                for k in ('page_size', 'margin', 'page_numbering_offset',
                          'page_numbering_reset'):
                    s['style'].pop(k, None)
        d['formats']['sec'] = {'c': 'blue'}
        for s in d.get('running_sections', {}).values():
            big.walk(s)
        if rng.random() < 0.3:
            d['style'].update(footnotes_margin=rng.choice([0, 40, 200]))
        tall_images(rng, sc['images'])
        sc['kind'] = 'document'
        return plain(sc)
    f = features(rng)
    sc = program.generate(rng, f, [(k, w) for k, w in MIX], n=rng.choice([1, 1, 2, 4]))
    s = sc['setup']
    s.pop('page_numbering_offset', None)
    s.pop('page_numbering_style', None)
    sc['fits'] = fits
    if not fits:
        s['page_size'] = sizes(rng, f)
        s['margin'] = margin(rng)
    if not fits and rng.random() < 0.1:
        s['font_size'] = rng.choice([60, 300])
    for op in sc['ops']:
        k = op['op']
        if k in ('add_page', 'setup') and not fits:
            if 'page_size' in op:
                op['page_size'] = sizes(rng, f)
            if 'margin' in op:
                op['margin'] = margin(rng)
        elif k in ('text', 'content', 'table', 'running'):
            if isinstance(op['desc'], dict):
                w = {'x': [op['desc']]}
                big.walk(w['x'])
            if k == 'text' and rng.random() < big.rate:
                big.style(op['args'])
                op['args'] = {a: b for a, b in op['args'].items() if a in layout.PAR}
            if k == 'running' and not fits and rng.random() < 0.5:
                op['w'] = rng.choice([1, 10, 40])
                op['h'] = rng.choice([1, 5, 900])
        if k == 'image' and not fits and rng.random() < 0.4:
            op['width' if rng.random() < 0.5 else 'height'] = rng.choice([1, 1000])
    if not fits:
        tall_images(rng, sc['images'])
    sc['kind'] = 'program'
    return plain(sc)


# ----------------------------------------------------------------- running

class Budget(BaseException):
    pass


def bounded(fn, limit=STEPS):
    """fn() under a budget of calls and jumps, the same in every run"""
    mon = sys.monitoring
    E = mon.events
    left = [limit]

    def tick(*a):
        left[0] -= 1
        if left[0] < 0:
            raise Budget()
    mon.use_tool_id(4, 'budget')
    mon.register_callback(4, E.JUMP, tick)
    mon.register_callback(4, E.PY_START, tick)
    mon.set_events(4, E.JUMP | E.PY_START)
    try:
        return fn()
    finally:
        mon.set_events(4, 0)
        mon.free_tool_id(4)


COUNT = [0]


def pages():
    """More than PAGES pages for one operation stand for no end."""
    import pdfme.pdf
    cls = pdfme.pdf.PDF
    real = cls.add_page

    def add_page(self, *a, **k):
        COUNT[0] += 1
        if COUNT[0] > PAGES:
            raise session.TooManyPages('more than %d pages' % PAGES)
        return real(self, *a, **k)
    cls.add_page = add_page


def attempt(what, fn, log):
    """-> None when everything was placed, else what the error says"""
    log.n('steps')
    log.n('op:' + what)
    COUNT[0] = 0
    try:
        bounded(fn)
    except Budget:
        raise Violation('endless', '%s: not done after %d steps' % (what, STEPS))
    except session.TooManyPages as e:
        raise Violation('endless', '%s: %s' % (what, e))
    except Exception as e:
        if 'fit' not in str(e):
            raise
        log.n('refused')
        return str(e) or 'fit'
    return None


def execute(sc, log):
    world.reset(7)
    world.disk.log = world.memory.log = log
    pages()
    if sc['kind'] == 'document':
        return document(sc, log)
    from pdfme import PDF
    setup = sc['setup']
    images = stage.load_images(sc.get('images', {}))
    b = layout.Builder(None, {'f': setup.get('font_family', 'Helvetica'),
                              's': setup.get('font_size', 11)})
    pdf = PDF(**copy.deepcopy(setup))
    pdf.formats.update(copy.deepcopy(sc.get('formats', {})))
    pdf.context.update(sc.get('context', {}))
    if sc.get('ttf'):
        session.ttf_setup(sc['ttf'])
    env = model.Env(copy.deepcopy(sc.get('formats', {})), dict(sc.get('context', {})), None,
                    {k: session.TTF_LOOK for k in sc.get('ttf', ())})
    b.env = env
    b.loose = True
    ops = []       # (root, first page, page after the last, first own page)
    running = []   # roots of running sections, by page
    sections = []

    def run_page(i):
        """the running sections of page i, drawn while it was made"""
        for desc in sections:
            b.env = model.Env(env.formats, dict(env.context, **{'$page': str(i + 1)}), None,
                              env.ttf)
            root = b.root_content(desc)
            for n in root.walk():
                if n.kind == 'par':
                    n.par.pages = {i}
                    n.par.prefix_ok = True
                    if n.par.bullet:
                        n.par.bullet.pages = {i}
                        n.par.bullet.prefix_ok = True
            running.append(root)
            b.env = env
    for op in sc['ops']:
        k = op['op']
        n0 = len(pdf.pages)
        root = None
        at = b.snapshot()
        if k in ('add_page', 'setup'):
            kw = {a: copy.deepcopy(op[a]) for a in ('page_size', 'rotate_page', 'margin')
                  if op.get(a) is not None}
            if k == 'setup':
                pdf.setup_page(**kw)
                continue
            res = attempt(k, lambda: pdf.add_page(**kw), log)
            if len(pdf.pages) != n0 + 1:
                raise Violation('pages', 'add_page added %d pages' % (len(pdf.pages) - n0))
        elif k == 'running':
            pdf.add_running_section(copy.deepcopy(op['desc']), width=op['w'], height=op['h'],
                                    x=op['x'], y=op['y'])
            sections.append(op['desc'])
            continue
        elif k == 'image':
            if not pdf.pages:
                attempt('add_page', pdf.add_page, log)
                run_page(0)
                n0 = 1
            kw = {a: op[a] for a in ('x', 'y', 'width', 'height', 'move') if op.get(a) is not None}
            if op['file'] not in images:
                raise Invalid('image')
            res = attempt(k, lambda: pdf.image(op['file'], **kw), log)
            pdf.page.go_to_beginning() if hasattr(pdf.page, 'go_to_beginning') else None
        else:
            d = copy.deepcopy(op['desc'])
            if k == 'text':
                a = {x: y for x, y in op.get('args', {}).items() if x in layout.PAR}
                root = b.root_text(op['desc'], **a)
                call = lambda: pdf.text(d, **copy.deepcopy(a))  # noqa: E731
            elif k == 'content':
                root = b.root_content(op['desc'])
                call = lambda: pdf.content(d)  # noqa: E731
            elif k == 'table':
                if not isinstance(d, dict) or 'table' not in d:
                    raise Invalid('table')
                kw = {x: d[x] for x in ('widths', 'borders', 'fills') if x in d}
                root = b.root_table(op['desc']['table'], op['desc'].get('style'), **kw)
                call = lambda: pdf.table(d['table'], style=d.get('style'), **kw)  # noqa: E731
            else:
                raise Invalid('op')
            if n0 == 0:
                if attempt('add_page', pdf.add_page, log):
                    pass
                run_page(0)
                n0 = 1
            first = pdf.page_index
            res = attempt(k, call, log)
        for i in range(n0, len(pdf.pages)):
            run_page(i)
        if res is not None and root is not None and sc.get('fits'):
            areas = [(p.content_width, p.content_height) for p in pdf.pages[first:]]
            root.boxes = [(i, 0, 0, w, h) for i, (w, h) in enumerate(areas)]
            narrow = any(min(r[2] for r in layout.node_slots(n)) < 2
                         for n in root.walk() if n.kind == 'image')
            if not narrow and not layout.may_not_fit(root, images, min(h for _, h in areas) - 1):
                raise Violation('refused', '%s: %s, but there is nothing in it that is too tall'
                                % (root.name, res[:80]))
            raise Invalid('does not fit')
        if res is not None and root is not None:
            for n in root.walk():
                n.optional = True
                if n.kind == 'par':
                    n.par.prefix_ok = True
                    if n.par.bullet:
                        n.par.bullet.prefix_ok = True
        if root is not None:
            ops.append((root, first, n0, len(pdf.pages), res))
        log.state(k, res and res[:30], len(pdf.pages) - n0)
    if not pdf.pages:
        return
    v = session.view(pdf, log)
    judge(v, b, ops, running, images, log,
          [op['file'] for op in sc['ops'] if op['op'] == 'image'])


def plain(v):
    """Without blank lines, which can fill pages."""
    if isinstance(v, str):
        while '\n\n' in v or '\n \n' in v:
            v = v.replace('\n\n', '\n').replace('\n \n', '\n')
        return v
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def judge(v, b, ops, running, images, log, direct=()):
    # bullets added to make parts too large, also of paragraphs without words
    v.words = [w for w in v.words if not BULLET.match(w.t)]
    model.assign(v.words, [p for p in b.pars if not (p.of and p.words and
                                                     BULLET.match(p.words[0].t))])
    marks = {}      # page -> number of things drawn on it by the paragraphs
    for root, first, n0, n1, res in ops:
        seen = set()
        files = set()
        for n in root.walk():
            if n.kind == 'par':
                seen.update(o.page for o in n.par.obs)
                if n.par.bullet:
                    seen.update(o.page for o in n.par.bullet.obs)
            elif n.kind == 'image':
                files.add(n.file)
                hit = [e for e in v.images if images[n.file]['match'](e)]
                if not hit and res is None:
                    raise Violation('lost-image', '%s: the image %s is not shown' % (
                        n.name, n.file))
                seen.update(e['page'] for e in hit)
        for e in v.lines + v.rects:
            seen.add(e['page'])     # (of tables, mostly)
        if res is None:
            for i in range(n0, n1):
                if i not in seen:
                    raise Violation('wasted-page', '%s: nothing of it is on page %d (of %d to '
                                    '%d)' % (root.name, i + 1, n0 + 1, n1))
    log.n('evaluations')
    log.n('words', len(v.words))
    log.n('pages', len(v.pages))


def document(sc, log):
    d = docs.Doc(sc, log)
    from pdfme.document import PDFDocument
    hold = []

    def go():
        o = PDFDocument(copy.deepcopy(d.doc), dict(d.context))
        hold.append(o)
        o.run()
    res = attempt('document', go, log)
    log.state('document', res and res[:30], len(hold[0].pdf.pages) if hold else 0)
    if res is not None:
        log.n('evaluations')
        return
    v = session.view(hold[0], log)
    b = d.builder()
    b.loose = True
    roots = [b.root_content(dict(s, style=d.section_style(s))) for s in d.doc['sections']]
    from collections import Counter
    said = ' '.join(d.context.values()).split(' ')
    shown = Counter(w.t for w in v.words)
    seen = {w.page for w in v.words} | {e['page'] for e in v.images + v.lines + v.rects}
    for root in roots:
        for n in root.walk():
            if n.kind == 'par':
                for w in n.par.words:
                    if docs.NOTE in w.t:
                        continue
                    if shown[w.t] != 1 and w.t not in said and len(w.t) > 3:
                        raise Violation('lost' if not shown[w.t] else 'repeated',
                                        '%s: the word %r is shown %d times' % (
                                            n.par.name, w.t, shown[w.t]))
            elif n.kind == 'image':
                if not any(d.images[n.file]['match'](e) for e in v.images):
                    raise Violation('lost-image', '%s: the image %s is not shown' % (
                        n.name, n.file))
    for i in range(1, len(v.pages)):
        if i not in seen:
            raise Violation('wasted-page', 'nothing is on page %d of %d' % (i + 1, len(v.pages)))
    log.n('evaluations')
    log.n('words', len(v.words))
    log.n('pages', len(v.pages))


DESCRIBE = {
    'rule': 'a run counts once every operation ended inside its budget and the saved file was '
            'read back and compared with what was asked for',
    'states': 'distinct (operation, error, pages added) tuples',
    'real': program.REAL, 'stubs': program.STUBS,
    'assumptions': ['an error that says that something does not fit is an answer; which parts '
                    'have to fit is left to P03, P04, P05 and P08',
                    '%d pages and %d steps for one operation stand for a document that never '
                    'ends' % (PAGES, STEPS)],
}
