"""Layout can be rolled back to a saved state and replayed."""
import copy as _copy

from .. import core, gen, hold, layout, model, observe, program, session, stage, world
from ..core import Violation, Invalid
from . import p03, p04

ID = 'P06'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 150000}
FROZEN = ('setup',)
TECHNIQUE = ('seeded schedules of rectangles for paragraphs, tables and content boxes, with '
             'abandoned attempts in other rectangles between them, some interrupted at sampled '
             'source lines or by a failing disk; the document is compared with that of a twin '
             'schedule without the attempts')
LEVEL_NOTE = ('elements, schedules, attempts and interrupts are sampled from one seed; the library '
              'is real, the disk, destination, clock and random source are simulated')


def generate(rng, tier, index):
    W = gen.Words(rng, special=rng.choice([0, 0.1]), maxlen=2)
    f = p04.features(rng)
    f.update(var=rng.choice([0, 0.1, 0.3]), vars=['one', 'two'])
    imgs = gen.Images(rng)
    size = rng.choice([[420, 300], [500, 420], [595, 842], [450, 240]])
    n = rng.choice([1, 1, 2, 3])
    items = []
    for _ in range(n):
        k = rng.choice(['text', 'table', 'content', 'content'])
        it = {'kind': k}
        im = imgs if f['image'] else None
        if k == 'text':
            it['desc'] = gen.paragraph(rng, W, f)
            it['args'] = gen.par_args(rng, W, f)
        elif k == 'table':
            it['desc'] = gen.table_element(rng, W, f, im)
        else:
            it['desc'] = gen.box(rng, W, f, im)
        items.append(it)
    turns = []
    tight = rng.random() < 0.5
    for _ in range(rng.choice([2, 4, 8])):
        turns.append({'who': rng.randint(0, n - 1), 'dx': rng.choice([0, 15, 30.5]),
                      'w': rng.choice([320, 350.5, 380]),
                      'h': rng.choice([0, 6, 15, 26, 40, 60, 71.3] if tight
                                      else [40, 80, 120, 200]),
                      'page': rng.random() < 0.3, 'tries': attempts(rng)})
    return {'setup': {'size': size, 'margin': rng.choice([10, 20])}, 'images': imgs.files,
            'context': W.context(),
            'items': items, 'turns': turns, 'late': [attempts(rng) for _ in range(6)]}


def attempts(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        a = {'w': rng.choice([320, 335, 380, 500]), 'x': rng.choice([10, 40]),
             'h': rng.choice([0, 10, 30, 60, 120, 250, 900, 3000])}
        r = rng.random()
        if r < 0.4:
            a['fail'] = {'kind': 'line', 'u': rng.random(), 'by': rng.choice(['time', 'place', 'write']),
                         'exc': rng.choice(['interrupt', 'memory'])}
        elif r < 0.5:
            a['fail'] = {'kind': 'disk', 'nth': rng.randint(0, 3),
                         'fault': rng.choice(['eio', 'enoent', 'empty', 'nomem', 'truncate'])}
        if rng.random() < 0.25:   # the first of several rectangles in a row
            a['more'] = [rng.choice([20, 60, 200]) for _ in range(rng.choice([1, 2, 4]))]
        if rng.random() < 0.15:
            a['var'] = 'other'
        out.append(a)
    return out


EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def execute(sc, log):
    twin = run(sc, core.Log(), False)
    got = run(sc, log, True)
    if twin is None or got is None:
        if (twin is None) != (got is None):
            raise Violation('differs', 'the document is %s after abandoned attempts, %s without' % (
                'refused' if got is None else 'finished',
                'refused' if twin is None else 'finished'))
        log.n('unfit')
        return
    d = observe.difference(twin, got)
    if d:
        raise Violation('differs', 'after abandoned attempts %s' % d)
    log.n('evaluations')
    log.event(d, len(got['pages']))


def make(pdf, it, r):
    """An element that was not run yet."""
    x, y, w, h = r
    d = _copy.deepcopy(it['desc'])
    if it['kind'] == 'text':
        a = {k: it['args'][k] for k in it['args']}
        if a.get('line_height', 1) < 1 or a.get('list_text', 'x') == '':
            raise Invalid('arguments')
        return pdf._create_text(d, w, h, **a)
    if not isinstance(d, dict):
        raise Invalid('element')
    if it['kind'] == 'table':
        if 'table' not in d:
            raise Invalid('table')
        kw = {k: d[k] for k in ('widths', 'borders', 'fills') if k in d}
        return pdf._create_table(d['table'], w, h, x, y, style=d.get('style'), **kw)
    if 'content' not in d:
        raise Invalid('box')
    return pdf._create_content(d, w, h, x, y)


def run(sc, log, spoil):
    from pdfme import PDF
    world.reset(6)
    world.disk.log = world.memory.log = log
    setup = sc['setup']
    session.budget()
    pdf = PDF(page_size=setup['size'], margin=setup['margin'])
    pdf.context.update(sc['context'])
    st = stage.Stage(pdf, setup['size'], setup['margin'], log)
    stage.load_images(sc['images'])
    paths = sorted(sc['images'])
    items = sc['items']
    env = model.Env(context=sc['context'])
    live, done = {}, set()
    put = {'text': pdf._text, 'table': pdf._table, 'content': pdf._content}
    m = setup['margin']
    H = setup['size'][1]
    for it in items:   # only what means something
        b = layout.Builder(env)
        if it['kind'] == 'text':
            b.root_text(it['desc'], **it['args'])
        elif it['kind'] == 'table':
            if not isinstance(it['desc'], dict) or 'table' not in it['desc']:
                raise Invalid('table')
            b.root_table(it['desc']['table'], it['desc'].get('style'))
        else:
            b.root_content(it['desc'])

    def serve(i, r, tries):
        x, y, w, h = r
        log.n('steps')
        if i not in live:
            live[i] = make(pdf, items[i], r)
        el = live[i]
        if spoil and tries:
            state = el.get_state()
            was = hold.freeze(state)
            for a in tries:
                attempt(el, a, state)
                d = hold.diff(was, hold.freeze(state))
                if d:
                    raise Violation('state-changed', 'the saved state of a %s was changed by an '
                                    'attempt: %s' % (items[i]['kind'], d))
                el.set_state(**state)
                d = hold.diff(was, hold.freeze(state))
                if d:
                    raise Violation('state-changed', 'the saved state of a %s was changed by '
                                    'set_state: %s' % (items[i]['kind'], d))
        put[items[i]['kind']](el, width=w, height=h, x=x, y=y)
        log.n('rectangles')
        if el.finished:
            done.add(i)
        log.state(items[i]['kind'], len(tries), el.finished, el.current_height > 0, round(h))

    def attempt(el, a, state):
        f = a.get('fail') or {}
        log.n('attempts')

        def go():
            el.run(session.num(a['x']), 600, session.num(a['w']), session.num(a['h']))
            for h in a.get('more', ()):
                if not el.finished:
                    el.run(session.num(a['x']), 500, session.num(a['w']), session.num(h))
        if a['w'] < 250 or a['h'] < 0:
            raise Invalid('attempt')
        if 'var' in a:
            pdf.context['one'] = a['var']
        try:
            if f.get('kind') == 'line':
                fired, out = world.spoil_line(go, f, log, EXC[f['exc']])
                if fired and out == 'done':
                    raise Violation('swallowed', 'an attempt that was interrupted returned as if '
                                    'nothing had happened')
            else:
                if f.get('kind') == 'disk' and paths:
                    world.disk.plan[paths[f['nth'] % len(paths)]] = [{'kind': f['fault']}]
                go()
        except (OSError, MemoryError, ValueError) as e:
            if not f:
                raise
        except Exception as e:
            if 'fit' not in str(e):
                raise
            log.n('attempts refused')
        finally:
            world.disk.plan = {}
            pdf.context['one'] = sc['context'].get('one', '')

    try:
        for t in sc['turns']:
            i = t['who']
            if not 0 <= i < len(items) or i in done:
                continue
            if t['page']:
                st.page()
            if session.num(t['w']) < 250 or session.num(t['h']) < 0:
                raise Invalid('turn')
            r = st.rect(t['dx'], t['w'], t['h'])
            serve(i, r, t['tries'])
        late = sc['late'] or [[]]
        for i in range(len(items)):
            tries = 0
            while i not in done:
                tries += 1
                if tries > 60:
                    return None
                serve(i, st.whole(), late[tries % len(late)] if tries < 8 else [])
    except session.TooManyPages as e:
        raise Violation('endless', str(e))
    except Exception as e:
        if 'could not be fitted' in str(e):
            return None
        raise
    return observe.canon(session.view(pdf, log))


DESCRIBE = {
    'rule': 'a run counts once the document was saved with and without the abandoned attempts and '
            'the two were compared',
    'states': 'distinct (element, attempts, finished, placed something, rectangle height) tuples',
    'real': p04.DESCRIBE['real'], 'stubs': p04.DESCRIBE['stubs'],
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right'],
}
