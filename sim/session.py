"""Shared pieces of the simulated clients: making documents, reading them."""
import io
import os

from . import world, observe
from .core import REPO, Violation, Invalid

PAGE_BUDGET = 400


class TooManyPages(Exception):
    pass


def budget(limit=PAGE_BUDGET):
    """From here on adding more than limit pages to a document is a violation
    of progress: it stands for a document that would grow for ever."""
    import pdfme.pdf
    cls = pdfme.pdf.PDF
    real = cls.add_page

    def add_page(self, *a, **k):
        if len(self.pages) >= limit:
            raise TooManyPages('more than %d pages' % limit)
        return real(self, *a, **k)
    cls.add_page = add_page


def save(doc, log, plan=None):
    s = world.Sink(plan, log)
    doc.output(s)
    return bytes(s.got)


def view(doc, log):
    log.n('saves')
    return observe.View(save(doc, log))


def ttf_setup(families):
    """Register the fonts shipped with the repository under given names."""
    from pdfme.fonts import PDFFont
    d = os.path.join(REPO, 'fonts')
    for fam in families:
        PDFFont.register(fam, 'n', os.path.join(d, 'OpenSans-Regular.ttf'))
        PDFFont.register(fam, 'i', os.path.join(d, 'OpenSans-Regular.ttf'))
        PDFFont.register(fam, 'b', os.path.join(d, 'OpenSans-Bold.ttf'))
        PDFFont.register(fam, 'bi', os.path.join(d, 'OpenSans-Bold.ttf'))


from . import model
model.TTF_FILES.update({
    'OpenSans-Regular': os.path.join(REPO, 'fonts', 'OpenSans-Regular.ttf'),
    'OpenSans-Bold': os.path.join(REPO, 'fonts', 'OpenSans-Bold.ttf')})
TTF_LOOK = {'n': 'OpenSans-Regular', 'b': 'OpenSans-Bold', 'i': 'OpenSans-Regular',
            'bi': 'OpenSans-Bold'}


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        raise Invalid('number')
    return x
