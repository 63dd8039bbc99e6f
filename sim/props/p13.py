"""Descriptions given by the user are not changed and can be reused."""
from .. import docs, hold, observe, program, session, stage, world
from ..core import Violation, Invalid

ID = 'P13'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 150000}
FROZEN = ()
TECHNIQUE = ('seeded histories of uses of one and the same description objects (equal parts '
             'shared, lists or tuples) in several documents, with interrupts at sampled source '
             'lines, failing destinations and disks; the objects are compared with what they were '
             'after every use, the last result with the description and with a document built '
             'from fresh copies')
LEVEL_NOTE = ('descriptions, histories and faults are sampled from one seed; the library is real, '
              'the destination, disk, clock and random source are simulated')

MIX = [('text', 4), ('content', 5), ('table', 4), ('image', 0.2), ('add_page', 1),
       ('setup', 0.5), ('goto', 0.3), ('running', 0.6), ('save', 0.4), ('format', 0.5)]


def gen_use(rng):
    r = rng.random()
    if r < 0.35:
        return {'fault': 'none'}
    if r < 0.8:
        return {'fault': 'line', 'at': rng.random(), 'by': rng.choice(['time', 'place', 'write'])}
    if r < 0.9:
        return {'fault': 'sink', 'at': rng.randint(0, 30)}
    return {'fault': 'disk', 'kind': rng.choice(['eio', 'enoent', 'eacces', 'empty', 'nomem']),
            'nth': rng.randint(0, 3)}


def generate(rng, tier, index):
    if rng.random() < 0.5:
        f = docs.features(rng)
        f.update(notes_rate=rng.choice([0, 0.2, 0.5]), long=8, elems=[1, 2, 4],
                 mark=rng.choice([0, 0.2]))
        sc = docs.generate(rng, f)
        sc['kind'] = 'document'
    else:
        f = program.features(rng)
        f.update(long=8, elems=[1, 2, 4])
        sc = program.generate(rng, f, MIX, rng.choice([1, 2, 4, 6]))
        sc['kind'] = 'program'
    sc['share'] = rng.random() < 0.7
    sc['tuples'] = rng.choice([False, False, True, 'all'])
    sc['uses'] = [gen_use(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return sc


def execute(sc, log):
    world.reset(13)
    world.disk.log = world.memory.log = log
    session.budget()
    images = stage.load_images(sc.get('images', {}))
    what = {k: sc[k] for k in ('doc', 'setup', 'ops', 'context', 'formats') if k in sc}
    held = hold.prepare(what, sc.get('share'), sc.get('tuples'))
    before = hold.freeze(held)
    one = use_document if sc['kind'] == 'document' else use_program

    def look(when):
        d = hold.diff(before, hold.freeze(held))
        if d:
            raise Violation('changed', 'after %s: %s' % (when, d))
        log.n('comparisons')

    for u in sc['uses']:
        log.state(sc['kind'], u['fault'], sc.get('share'), sc.get('tuples'))
        spoil(one, held, u, sc, log, images)
        world.disk.plan = {}
        look('a use with the fault %s' % u['fault'] if u['fault'] != 'none' else 'a use')
    v = one(held, sc, log, images, check=True)
    look('the last use')
    fresh = hold.prepare(what, False, sc.get('tuples'))
    w = one(fresh, sc, log, images)
    d = observe.difference(observe.canon(w), observe.canon(v))
    if d:
        raise Violation('differs', 'built again from the same description: %s' % d)
    log.n('evaluations')
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])


def spoil(one, held, u, sc, log, images):
    k = u['fault']
    if k == 'line':
        world.spoil_line(lambda: one(held, sc, log, images),
                         {'u': u['at'], 'by': u.get('by')}, log)
        return
    plan = None
    if k == 'sink':
        plan = {'kind': 'error', 'at': u['at']}
    elif k == 'disk':
        paths = sorted(sc.get('images', {}))
        if paths:
            p = paths[u['nth'] % len(paths)]
            world.disk.plan[p] = [{'kind': u['kind']}]
    try:
        one(held, sc, log, images, plan)
    except (world.SinkError, OSError, MemoryError, ValueError):
        if k == 'none':
            raise


def use_document(held, sc, log, images, plan=None, check=False):
    d = docs.Doc(sc, log, images)
    o = d.build(held['doc'], held['context'])
    s = world.Sink(plan, log)
    o.output(s)
    v = observe.View(bytes(s.got))
    if check:
        d.check(v)
    return v


def use_program(held, sc, log, images, plan=None, check=False):
    c = program.Client(sc, log, images=images, dup=hold.handed(
        {k: sc[k] for k in held}, held))
    for op in sc['ops']:
        if op['op'] == 'save':
            if plan is not None and c.pages:
                c.pdf.output(world.Sink(plan, log))
            continue
        c.do(op)
    if not c.pages:
        c.op_add_page({'op': 'add_page'}, lambda fn: fn())
    s = world.Sink(plan, log)
    c.pdf.output(s)
    v = observe.View(bytes(s.got))
    if check:
        c.check_view(v)
    return v


DESCRIBE = {
    'rule': 'a run counts once its descriptions were compared after every use and the last document '
            'was compared with its description and with one built from fresh copies',
    'states': 'distinct (document or operations, fault of the use, parts shared, tuples) tuples',
    'real': docs.REAL, 'stubs': docs.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right'],
}
