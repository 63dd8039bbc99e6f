"""Every page has its own geometry, running sections and page number."""
from .. import docs, observe, program, session, world

ID = 'P15'
LEVEL = 'exploration'
RUNS = {'quick': 4000, 'thorough': 250000}
FROZEN = ()
TECHNIQUE = ('seeded histories of page settings, pages, running sections, numberings and elements, '
             'and seeded documents of sections and page ranges; the geometry, running sections and '
             'number of every page read back are compared with those in force for it')
LEVEL_NOTE = ('histories and documents are sampled from one seed; the library is real, the '
              'destination, disk, clock and random source are simulated')

MIX = [('text', 3), ('content', 2), ('table', 1), ('image', 0.2), ('add_page', 3),
       ('setup', 2.5), ('goto', 1.5), ('running', 1.5), ('norunning', 0.5), ('save', 0.8),
       ('context', 0.2), ('numbering', 1.5)]


def generate(rng, tier, index):
    if rng.random() < 0.5:
        f = program.features(rng)
        f.update(image=0, mark=0, nest=0.1, table=0.1)
        sc = program.generate(rng, f, MIX, rng.choice([3, 8, 14, 20]))
        sc['kind'] = 'program'
        return sc
    f = docs.features(rng)
    f.update(notes_rate=rng.choice([0, 0, 0.1]), ranges=rng.choice([0, 1, 2, 4]),
             runs_n=rng.choice([1, 2, 3, 4]), sections=rng.choice([1, 2, 3, 4]),
             page_p=rng.choice([0.2, 0.5]), image=0, mark=0, nest=0.1, table=0.1,
             elems=[1, 2, 4])
    sc = docs.generate(rng, f)
    sc['kind'] = 'document'
    sc['plan'] = program.gen_plan(rng)
    return sc


def execute(sc, log):
    world.reset(15)
    world.disk.log = world.memory.log = log
    session.budget()
    if sc['kind'] == 'program':
        c = program.Client(sc, log)
        for op in sc['ops']:
            c.do(op)
        v = c.final(sc.get('plan'))
        pages, extra = c.pages, c.extra
        docs.check_running_order(extra)
        log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])
    else:
        d = docs.Doc(sc, log)
        o = d.build()
        s = world.Sink(sc.get('plan'), log)
        o.output(s)
        log.n('saves')
        v = d.check(observe.View(bytes(s.got)))
        pages, extra = d.pages, d.extra
    n = {}
    for r in extra:
        n[r.boxes[0][0]] = n.get(r.boxes[0][0], 0) + 1
    for i, p in enumerate(pages):
        q = pages[i - 1] if i else p
        log.state(sc['kind'], min(i, 9), (p.w, p.h) == (q.w, q.h), p.m == q.m,
                  n.get(i, 0), p.label.isdigit())
    log.n('running', len(extra))


DESCRIBE = {
    'rule': 'a run counts each save in which the geometry, running sections, number and contents of '
            'every page were compared with those in force for it',
    'states': 'distinct (page, size as on the page before, margins as before, running sections on '
              'it, arabic) tuples of finished documents',
    'real': docs.REAL, 'stubs': docs.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right'],
}
