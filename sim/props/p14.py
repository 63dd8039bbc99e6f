"""Links, destinations and outlines lead to the text that was marked."""
from .. import program, session, world

ID = 'P14'
LEVEL = 'exploration'
RUNS = {'quick': 4000, 'thorough': 300000}
FROZEN = ('setup',)
TECHNIQUE = ('seeded histories of marked paragraphs, boxes and tables continued over pages, with '
             'jumps between pages and saves to a simulated destination in between; every link, '
             'destination and outline read back is compared with the words that were marked')
LEVEL_NOTE = ('histories, contents and page geometries are sampled from one seed; the library is '
              'real, the destination, disk, clock and random source are simulated')

MIX = [('text', 6), ('content', 4), ('table', 3), ('image', 0.2), ('add_page', 1),
       ('goto', 1), ('setup', 0.4), ('save', 1), ('register', 0.1), ('context', 0.3),
       ('format', 0.2), ('numbering', 0.1)]


def generate(rng, tier, index):
    f = program.features(rng)
    f['mark'] = rng.choice([0.3, 0.6, 0.9])
    f['many'] = 0.1
    f['long'] = rng.choice([8, 20, 50])
    return program.generate(rng, f, MIX)


def execute(sc, log):
    world.reset(1)
    world.disk.log = world.memory.log = log
    session.budget()
    c = program.Client(sc, log)
    for op in sc['ops']:
        c.do(op)
    v = c.final(sc.get('plan'))
    for i, p in enumerate(v.pages):
        kinds = sorted({a[0] for a in p.annots})
        log.state(i, kinds, min(len(p.annots), 6), len(v.pdf.dests) // 3, len(v.pdf.outlines))
        log.event(i, [(k, t, [round(x, 1) for x in r]) for k, t, r in p.annots])
    # the titles of outlines given without one are random, so are their places in the tree
    log.event(len(v.pdf.dests))


DESCRIBE = {
    'rule': 'a run counts each save in which every link, destination and outline was compared '
            'with the words that were marked',
    'states': 'distinct (page, kinds of links on it, their number up to 6, labels / 3, '
              'top-level outlines) tuples of finished documents',
    'real': program.REAL, 'stubs': program.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right',
                    'outlines never skip a level downward (the library refuses them)'],
}
