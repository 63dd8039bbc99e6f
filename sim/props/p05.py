"""Content boxes over any sequence of rectangles."""
from .. import gen
from ..core import Invalid
from . import p04

ID = 'P05'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 200000}
FROZEN = ('setup',)


def generate(rng, tier, index):
    sc = None
    real = p04.make
    try:
        p04.make = lambda rng, W, f, imgs: gen.box(rng, W, f, imgs)
        sc = p04.generate(rng, tier, index)
    finally:
        p04.make = real
    return sc


def start_item(pdf, b, desc, r, log):
    root = b.root_content(desc)
    return lambda **k: pdf._content(desc, **k), root


def auto_item(pdf, b, desc):
    root = b.root_content(desc)
    return lambda: pdf.content(desc), root


def again_item(pdf, el):
    return lambda **k: pdf._content(el, **k)


def execute(sc, log):
    p04.run(sc, log, start_item, auto_item, again_item)


DESCRIBE = dict(p04.DESCRIBE)
DESCRIBE['rule'] = 'a run counts once its document was saved, read back and every element compared'
TECHNIQUE = ('a seeded scheduler serves content boxes rectangles of random sizes and pages in '
             'random turns; an independent model of the description checks every element in the '
             'saved file')
LEVEL_NOTE = p04.LEVEL_NOTE
