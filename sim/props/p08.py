"""Footnotes are numbered per page and printed with the page that refers to them."""
from .. import docs, hold, observe, session, world
from ..core import Violation

ID = 'P08'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 200000}
FROZEN = ()
TECHNIQUE = ('seeded documents with footnotes in every kind of place are laid out over pages of '
             'sampled geometry, where layout attempts are rolled back page by page; an independent '
             'model compares the references of every page with the notes printed on it')
LEVEL_NOTE = ('documents are sampled from one seed; the library is real, the destination, disk, '
              'clock and random source are simulated')


def generate(rng, tier, index):
    f = docs.features(rng)
    f['notes_rate'] = rng.choice([0.1, 0.3, 0.6, 0.9])
    f['elems'] = [2, 4, 8]
    f['runs_n'] = rng.choice([0, 0, 1])
    f['ranges'] = rng.choice([0, 0, 1])
    f['cols'] = rng.choice([0, 0.3, 0.6])
    f['mark'] = 0
    sc = docs.generate(rng, f)
    from .. import program
    sc['plan'] = program.gen_plan(rng)
    sc['tuples'] = rng.choice([False, False, True, 'all'])
    return sc


def execute(sc, log):
    world.reset(8)
    world.disk.log = world.memory.log = log
    session.budget()
    d = docs.Doc(sc, log)
    o = d.build(hold.prepare(sc['doc'], False, sc.get('tuples')))
    s = world.Sink(sc.get('plan'), log)
    o.output(s)
    log.n('saves')
    d.check(observe.View(bytes(s.got)))


DESCRIBE = {
    'rule': 'a run counts once its document was saved, read back and every reference, number and '
            'note was compared with the description',
    'states': 'distinct (notes on a page, pages with notes) and (pages, sections, running sections '
              'drawn, references) tuples of finished documents',
    'real': docs.REAL, 'stubs': docs.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right',
                    'a document whose notes all together could fill a page may be refused'],
}
