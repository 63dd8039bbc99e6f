"""A failed operation leaves the document usable and earlier content intact."""
import copy as _copy

from .. import docs, gen, marks, observe, program, session, stage, world
from ..careful import BAD, EXC, Careful
from ..core import Violation

ID = 'P09'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 200000}
FROZEN = ('setup',)
TECHNIQUE = ('seeded histories of operations, some of which fail: erroneous descriptions, storage '
             'faults, no memory and interrupts at sampled source lines; what was added before and '
             'after them is compared with a model in the saved file, of the failed ones at most '
             'a beginning may be shown')
LEVEL_NOTE = ('histories and fault points are sampled from one seed; the library is real, the '
              'destination, disk, memory, clock and random source are simulated')

MIX = [('text', 5), ('content', 4), ('table', 3), ('image', 2), ('add_page', 1.2),
       ('setup', 0.5), ('goto', 0.4), ('running', 0.6), ('context', 0.2), ('save', 0.4)]
FAILING = ('text', 'content', 'table', 'image', 'add_page', 'setup', 'goto', 'running')


def gen_fail(rng, k):
    r = rng.random()
    if r < 0.75 or k in ('add_page', 'setup', 'goto', 'running'):
        return {'kind': 'line', 'u': rng.random(), 'by': rng.choice(['time', 'place', 'write', 'write']),
                'exc': rng.choice(['interrupt', 'memory', 'exit'])}
    if r < 0.85 or k == 'image' and r < 0.95:
        return {'kind': 'disk', 'nth': rng.randint(0, 3),
                'fault': rng.choice(['eio', 'enoent', 'eacces', 'emfile', 'empty', 'nomem',
                                     'eintr', 'truncate'])}
    return {'kind': 'bad', 'what': rng.choice(sorted(BAD)), 'at': rng.random()}


def generate(rng, tier, index):
    f = program.features(rng)
    f.update(elems=[1, 2, 4], mark=rng.choice([0, 0, 0.15, 0.4]), flat=True,
             long=rng.choice([5, 20]))
    few = rng.random() < 0.15
    sc = program.generate(rng, f, [('image', 6), ('content', 1), ('add_page', 0.5)] if few else MIX,
                          rng.choice([2, 3, 5, 8]))
    if rng.random() < 0.25:
        sc['ttf'] = ['Open']
        f['ttf'] = ['Open']
        W = gen.Words(rng, maxlen=2, prefix='q')
        for _ in range(rng.choice([1, 2, 3])):
            sc['ops'].insert(rng.randint(0, len(sc['ops'])), {
                'op': 'text', 'desc': {
                    '.f:Open' + rng.choice(['', ';b', ';i', ';b;i']): [W.some(3)]},
                'args': {}})
    n = 0
    for op in sc['ops']:
        if op['op'] in FAILING and rng.random() < (0.8 if few else 0.5):
            op['fail'] = gen_fail(rng, op['op'])
            if op['op'] == 'image' and rng.random() < 0.7:
                op['again'] = True    # the user tries the very same once more
            n += 1
    sc['stay'] = rng.random() < 0.4
    sc['kind'] = 'program'
    if rng.random() < 0.15:
        f = docs.features(rng)
        f.update(long=8, elems=[1, 2, 4], mark=rng.choice([0, 0.15, 0.4]))
        d = docs.generate(rng, f)
        d.update(kind='document', setup={}, fail=gen_fail(rng, 'add_page'),
                 more=[gen.Words(rng, maxlen=2, prefix='z').some(3) for _ in range(2)])
        return d
    return sc


def execute(sc, log):
    world.reset(9)
    world.disk.log = world.memory.log = log
    session.budget()
    if sc['kind'] == 'document':
        return document(sc, log)
    c = Careful(sc, log)
    for op in sc['ops']:
        if 'fail' in op:
            c.attempt(op)
            if op.get('again'):
                c.do(dict({k: v for k, v in op.items() if k not in ('again', 'fail')},
                          here=True))
        else:
            c.do(op)
    v = c.final()
    if world.disk.still_open():
        raise Violation('leak', 'files are still open: %r' % world.disk.still_open())
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])


def document(sc, log):
    """A document whose making failed half-way is a document all the same."""
    d = docs.Doc(sc, log)
    f = sc['fail']
    made = []

    def go():
        from pdfme.document import PDFDocument
        o = PDFDocument(_copy.deepcopy(d.doc), dict(d.context))
        made.append(o)
        o.run()
    d.build()      # does it fit?
    world.reset(9)
    stage.load_images(sc.get('images', {}))
    fired, out = world.spoil_line(go, f, log, EXC[f['exc']])
    if fired and out == 'done':
        raise Violation('swallowed', 'a document interrupted while it was made is as if nothing '
                        'had happened')
    if not fired or not made:
        return
    pdf = made[0].pdf
    pdf.running_sections = []
    n = len(pdf.pages)
    pdf.setup_page([400, 500], False, 30)
    for t in sc['more']:
        pdf.add_page()
        pdf.text({'.': [t]})
    s = world.Sink(None, log)
    pdf.output(s)
    v = observe.View(bytes(s.got))
    log.n('saves')
    if len(v.pages) != n + len(sc['more']):
        raise Violation('pages', 'the file has %d pages, %d were added' % (
            len(v.pages), n + len(sc['more'])))
    dests = {k for k, _ in v.pdf.dests}
    for o in marks.all_outlines(v.pdf.outlines):
        if o['dest'] not in dests:
            raise Violation('outline', 'the outline %r leads nowhere' % o['title'])
    for i, t in enumerate(sc['more']):
        got = [w.t for w in v.words if w.page == n + i]
        if got != t.split():
            raise Violation('lost', 'after a failure %r was added, the page shows %r' % (t, got))
    log.n('evaluations')
    log.state('document', n, int(f['u'] * 40), f['exc'])
    log.event(n, len(v.words))


DESCRIBE = {
    'rule': 'a run counts each save in which all that was added before and after failed operations '
            'was compared with the model',
    'states': 'distinct (failed operation, fault, place of the fault in 40ths of the operation, '
              'pages it had added) tuples',
    'real': docs.REAL, 'stubs': docs.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right',
                    'after a failure the user sets the page settings and current page anew'],
}
