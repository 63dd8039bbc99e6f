"""Tables over any sequence of rectangles."""
from .. import gen, layout, model, session, stage, world
from ..core import Violation, Invalid

ID = 'P04'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 200000}
FROZEN = ('setup',)
WHAT = 'table'


def features(rng):
    return {'style': rng.choice([0, 0.3, 0.7]), 'long': rng.choice([5, 20, 50]),
            'br': rng.choice([0, 0.2]), 'glue': 0.1, 'list': rng.choice([0, 0.2]),
            'indent': 0.2, 'underline': 0.15, 'bg': 0.1, 'rise': 0.05,
            'image': rng.choice([0, 0.1, 0.3]), 'nest': rng.choice([0, 0.1, 0.35]),
            'spans': rng.choice([0, 0.2, 0.5]), 'table': rng.choice([0, 0.2, 0.4]),
            'group': rng.choice([0, 0.1, 0.3]), 'cols': rng.choice([0, 0.3, 0.7]),
            'margins': rng.choice([0, 0.3])}


def words(rng):
    return gen.Words(rng, special=rng.choice([0, 0.1]), maxlen=2)


def make(rng, W, f, imgs):
    return gen.table_element(rng, W, f, imgs)


def generate(rng, tier, index):
    W = words(rng)
    f = features(rng)
    imgs = gen.Images(rng)
    size = rng.choice([[420, 300], [500, 420], [595, 842], [450, 240]])
    n = rng.choice([1, 1, 1, 2, 3])
    items = [{'desc': make(rng, W, f, imgs if f['image'] else None),
              'auto': rng.random() < 0.25} for _ in range(n)]
    turns = []
    tight = rng.random() < 0.5
    for _ in range(rng.choice([1, 2, 4, 8])):
        turns.append({'who': rng.randint(0, n - 1), 'dx': rng.choice([0, 15, 30.5]),
                      'w': rng.choice([320, 350.5, 380]),
                      'h': rng.choice([0, 6, 15, 26, 40, 60, 71.3] if tight
                                      else [40, 80, 120, 200]),
                      'how': stage.gen_cursor(rng), 'page': rng.random() < 0.3})
    return {'setup': {'size': size, 'margin': rng.choice([10, 20])}, 'images': imgs.files,
            'items': items, 'turns': turns}


def start_item(pdf, b, desc, r, log):
    """-> (element, root node)"""
    if not isinstance(desc, dict) or 'table' not in desc:
        raise Invalid('table')
    kw = {k: desc[k] for k in ('widths', 'borders', 'fills') if k in desc}
    root = b.root_table(desc['table'], desc.get('style'), **kw)
    return lambda **k: pdf._table(desc['table'], style=desc.get('style'), **kw, **k), root


def auto_item(pdf, b, desc):
    kw = {k: desc[k] for k in ('widths', 'borders', 'fills') if k in desc}
    root = b.root_table(desc['table'], desc.get('style'), **kw)
    return lambda: pdf.table(desc['table'], style=desc.get('style'), **kw), root


def again_item(pdf, el):
    return lambda **k: pdf._table(el, **k)


def execute(sc, log, start=None, auto=None, again=None):
    run(sc, log, start_item, auto_item, again_item)


def run(sc, log, start, auto, again):
    from pdfme import PDF
    world.reset(4)
    world.disk.log = world.memory.log = log
    setup = sc['setup']
    session.budget()
    pdf = PDF(page_size=setup['size'], margin=setup['margin'])
    st = stage.Stage(pdf, setup['size'], setup['margin'], log)
    images = stage.load_images(sc['images'])
    env = model.Env()
    b = layout.Builder(env)
    items = sc['items']
    live = {}
    roots = {}
    done = set()
    m = setup['margin']
    W, H = setup['size']

    def serve(i, r, how):
        log.n('steps')
        if i not in live:
            go, roots[i] = start(pdf, b, items[i]['desc'], r, log)
            roots[i].boxes = [st.box(r)]
            live[i] = stage.placed(pdf, r, how, go)
        else:
            roots[i].boxes.append(st.box(r))
            live[i] = stage.placed(pdf, r, how, again(pdf, live[i]))
        log.n('rectangles')
        log.state('turn', live[i].finished, live[i].current_height > 0,
                  len(roots[i].boxes), round(r[3]))
        if live[i].finished:
            done.add(i)

    try:
        for t in sc['turns']:
            i = t['who']
            if not 0 <= i < len(items) or i in done:
                continue
            if t['page']:
                st.page()
            if items[i].get('auto') and i not in live:
                if st.y is None:
                    st.page()
                p0 = len(pdf.pages) - 1
                y0 = st.y
                pdf.page.y = y0
                go, root = auto(pdf, b, items[i]['desc'])
                roots[i] = root
                cw = W - 2 * m
                root.boxes = [(p0, m, H - m, cw, H - 2 * m)]
                go()
                root.boxes = [(p0, m, H - y0, cw, H - m - y0)]
                for k in range(p0 + 1, len(pdf.pages)):
                    root.boxes.append((k, m, H - m, cw, H - 2 * m))
                st.y = min(H, pdf.page.y + 6)
                done.add(i)
                log.n('steps')
                continue
            if session.num(t['w']) < 250 or session.num(t['h']) < 0:
                raise Invalid('turn')
            serve(i, st.rect(t['dx'], t['w'], t['h']), t.get('how', {}))
        for i in range(len(items)):
            tries = 0
            while i not in done:
                tries += 1
                if tries > 60:
                    if layout.may_not_fit(roots[i], images, H - 2 * m):
                        log.n('unfit')
                        return
                    raise Violation('stuck', 'item %d is not finished after 60 whole pages' % i)
                serve(i, st.whole(), {'at': tries % 2})
    except session.TooManyPages as e:
        raise Violation('endless', str(e))
    except Exception as e:
        if 'could not be fitted' in str(e):
            if not any(layout.may_not_fit(r, images, H - 2 * m) for r in roots.values()):
                raise Violation('unfit', str(e)[:300])
            log.n('unfit')
            return
        raise
    v = session.view(pdf, log)
    layout.check_view(v, b, [roots[i] for i in sorted(roots)], images, log)
    log.n('evaluations')
    log.n('pages', len(v.pages))
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])
    for t in b.tables:
        for c in t.children:
            log.state('cell', c.rs, c.cs, [k.kind for k in c.children],
                      len({a.key for n in c.walk() for a in n.atoms}))


DESCRIBE = {
    'rule': 'a run counts once its document was saved, read back and every cell compared',
    'states': 'distinct (turn outcome, rectangles so far, rectangle height) and (cell spans, '
              'kind of contents, number of rectangles it is spread over) tuples',
    'real': ['pdfme.pdf', 'pdfme.table', 'pdfme.content', 'pdfme.text', 'pdfme.image',
             'pdfme.fonts', 'pdfme.page', 'pdfme.base', 'pdfme.parser', 'pdfme.utils',
             'pdfme.color', 'Pillow'],
    'stubs': ['disk', 'output sink', 'random source', 'clock'],
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right'],
}
TECHNIQUE = ('a seeded scheduler serves tables rectangles of random sizes and pages in random '
             'turns; an independent model of the description checks every cell, border and fill '
             'in the saved file')
LEVEL_NOTE = ('sampled, not exhaustive; the layout code is real, only disk, sink, clock and '
              'random source are simulated')
