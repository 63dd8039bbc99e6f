"""Labels, references, web links and outlines: making them, and checking that
they lead where they should."""
from . import gen, model
from .core import Violation, Invalid

URIS = ['https://example.org/', 'http://a.example/x?y=(1)&z=%20', 'mailto:me@example.org',
        'https://example.org/\\back', 'https://example.org/#f)', 'x:1']


class Maker:
    """Marks for the parts of paragraphs of one scenario."""

    def __init__(self, rng, rate, flat=False):
        self.flat = flat    # all outlines at the first level
        self.rng = rng
        self.rate = rate
        self.n = 0
        self.defined = set()
        self.wanted = set()
        self.uni = rng.random() < 0.2
        self.level = False

    def label(self):
        self.n += 1
        r = self.rng
        name = 'l%d' % self.n
        if r.random() < 0.2:
            name += r.choice([' x', '(', ')', '\\', '\xe9', ':', '/', 'Z', '\r', '\n'])
        if self.uni and r.random() < 0.5:
            name += r.choice(['\u0416', '\u4e2d', '\u20ac'])
        return name

    def put(self, d):
        r = self.rng
        if r.random() >= self.rate:
            return
        x = r.random()
        if x < 0.3:
            d['label'] = self.label()
            self.defined.add(d['label'])
        elif x < 0.55:
            if self.defined and r.random() < 0.6:
                d['ref'] = r.choice(sorted(self.defined))
            else:
                d['ref'] = 'w%d' % r.randint(0, 3)
                self.wanted.add(d['ref'])
        elif x < 0.8:
            d['uri'] = r.choice(URIS)
        else:
            o = {}
            if r.random() < 0.7:
                o['level'] = r.choice([1, 1, 2])
                if self.flat:
                    o['level'] = 1
            self.n += 1
            o['text'] = r.choice(['t%d', 't%d (', 'the \\ %d', 't%d \xe9']) % self.n
            if self.uni and r.random() < 0.5:
                o['text'] += '\u4e2d'
            if not self.flat and r.random() < 0.4:
                del o['text']     # its title is what it says
            d['outline'] = o
            if r.random() < 0.5:
                d['label'] = self.label()
                self.defined.add(d['label'])

    def missing(self, W):
        return [{'.': [W.one()], 'label': x} for x in sorted(self.wanted - self.defined)]


# ----------------------------------------------------------------- checks

def spans(p):
    """For every tag of a paragraph: the pieces of words that have it
    -> [(tag, [(observed word, x0, x1, style)])]"""
    out = {}
    tags = []
    for e, o in zip(p.words, p.obs):
        for s, (x0, x1) in zip(e.segs, model.seg_widths(e, o)):
            for t in s.tags:
                if id(t) not in out:
                    out[id(t)] = []
                    tags.append(t)
                out[id(t)].append((o, x0, x1, s.style))
    return [(t, out[id(t)]) for t in tags]


def key(name):
    """a label as its bytes in the file"""
    try:
        return name.encode('latin')
    except UnicodeEncodeError:
        return b'\xfe\xff' + name.encode('utf-16-be')


def piece(o, x0, x1, style):
    size = style.get('s', 11)
    base = o.y + style.get('r', 0) * size
    return base, size


def check(v, roots, extra=(), level=1, log=None, failed=()):
    """of the roots in `failed` any beginning may be there"""
    failed = {id(r) for r in failed}
    pars = []
    for r in list(roots) + list(extra):
        for n in r.walk():
            if n.kind == 'par':
                pars.append((r, n.par))
    links = []      # (kind, target, page, [(x0, x1, base, size)])
    labels = {}     # name -> (page, word) of its first piece
    outs = []
    untagged = []
    maybe = set()
    for r, p in pars:
        for t, ps in spans(p):
            if id(r) in failed:
                maybe.add(id(t))
            if t.kind in ('ref', 'uri'):
                for o, x0, x1, st in ps:
                    base, size = piece(o, x0, x1, st)
                    links.append([t.kind, t.value, o.page, x0, x1, base, size, o.t,
                                  base < o.y - 0.01 or getattr(r, 'running', False),
                                  id(r) in failed])
            elif t.kind == 'label':
                o, x0, x1, st = ps[0]
                labels.setdefault(t.value, []).append((getattr(r, 'op', -1), o.order, o, x0, st,
                                                       id(r) in failed))
            elif t.kind == 'outline':
                o, x0, x1, st = ps[0]
                outs.append((getattr(r, 'op', -1), o.order, o, x0, st, t))
    check_links(v, links, [p for r, p in pars if not getattr(r, 'running', False) and
                           id(r) not in failed])
    dests = {k: d for k, d in v.pdf.dests}
    for name, at in labels.items():
        k = key(name).decode('latin')
        if k not in dests and all(a[5] for a in at):
            continue
        if k not in dests:
            raise Violation('lost-label', 'the label %r leads nowhere' % name)
        at.sort(key=lambda a: a[:2])
        _, _, o, x0, st, _ = at[0]
        leads('the label %r' % name, dests[k], o, x0, st)
    for p in v.pages:
        for kind, target, rect in p.annots:
            if kind == 'ref' and target not in dests and \
                    target in {key(n).decode('latin') for n, at in labels.items()
                               if not all(a[5] for a in at)}:
                raise Violation('link', 'a reference leads to %r, which is nowhere' % target)
    mine = {key(n).decode('latin') for n in labels}
    auto = len([k for k in dests if k not in mine])
    nolabel = [x for x in outs if x[5].extra[1] is None]
    # (a label of what failed may be there though no text of it is seen)
    if not failed and auto != len(nolabel):
        raise Violation('dests', 'there are %d destinations, %d labels and %d outlines without '
                        'one' % (len(dests), len(labels), len(nolabel)))
    outs.sort(key=lambda x: x[:2])
    want = []
    for op, order, o, x0, st, t in outs:
        lv, lab = t.extra
        if not isinstance(lv, int) or lv < 1:
            raise Invalid('level')
        at = want
        for _ in range(lv - 1):
            if not at:
                raise Invalid('level')
            at = at[-1][1]
        at.append(((o, x0, st, t), []))
    if failed:
        want = there(want, v.pdf.outlines, maybe)
    compare(want, v.pdf.outlines, dests, level, 1)
    if log is not None:
        log.n('links', sum(len(p.annots) for p in v.pages))
        log.n('labels', len(labels))
        log.n('outlines', len(outs))


def all_outlines(got):
    for g in got:
        yield g
        yield from all_outlines(g['kids'])


def there(want, got, maybe):
    """The outlines without those of failed operations that are not there."""
    out = []
    left = [g['title'] for g in got]
    for w in want:
        t = w[0][3]
        if id(t) in maybe and (not left or left[0] != t.value):
            continue
        if left:
            left.pop(0)
        out.append(w)
    return out


def leads(what, dest, o, x0, st):
    page, x, y, zoom = dest
    size = st.get('s', 11)
    if page != o.page:
        raise Violation('destination', '%s leads to page %d, its text %r begins on page %d' % (
            what, page + 1, o.t, o.page + 1))
    base = o.y + min(0, st.get('r', 0) * size)
    top = o.y + max(0, st.get('r', 0) * size) + 1.1 * size
    if not (base - 0.1 <= y <= top + 0.3 and x <= x0 + 0.1 and x >= x0 - 60):
        raise Violation('destination', '%s leads to %.2f, %.2f, its text %r begins at %.2f, %.2f'
                        % (what, x, y, o.t, x0, o.y))


def compare(want, got, dests, level, depth):
    a = [w[0][3].value for w in want]
    b = [g['title'] for g in got]
    if a != b:
        raise Violation('outline', 'outlines at depth %d are %r, marked texts are %r' % (
            depth, b[:12], a[:12]))
    for ((o, x0, st, t), kids), g in zip(want, got):
        lab = t.extra[1]
        if lab is not None and g['dest'] != key(lab).decode('latin'):
            raise Violation('outline', 'the outline %r leads to %r, its text has label %r' % (
                t.value, g['dest'], lab))
        if g['dest'] not in dests:
            raise Violation('outline', 'the outline %r leads nowhere' % t.value)
        leads('the outline %r' % t.value, dests[g['dest']], o, x0, st)
        if kids and g['open'] != (depth < level):
            raise Violation('outline', 'the outline %r at depth %d is %s, outlines_level is %d' % (
                t.value, depth, 'open' if g['open'] else 'closed', level))
        compare(kids, g['kids'], dests, level, depth + 1)


def check_links(v, links, pars):
    boxes = []
    for i, p in enumerate(v.pages):
        for kind, target, r in p.annots:
            boxes.append([i, kind, target, r, 0])
    deep = []   # links of lowered text, and in margins: other text may reach into them
    for kind, value, page, x0, x1, base, size, word, low, maybe in links:
        k = key(value).decode('latin')
        hit = [b for b in boxes if b[0] == page and b[1] == kind and b[2] == k and
               b[3][0] <= x0 + 0.1 and b[3][2] >= x1 - 0.1 and
               b[3][1] <= base + 0.1 and b[3][3] >= base + 0.4 * size and
               b[3][3] - b[3][1] <= 1.5 * size]
        if not hit and maybe:
            continue
        if not hit:
            raise Violation('link', 'the word %r on page %d has no %s link to %r' % (
                word, page + 1, kind, value))
        at = min(hit, key=lambda b: b[3][2] - b[3][0])
        at[4] += 1
        if low or maybe:
            deep.append(at[3])
    used = {(b[0], b[1], b[2], tuple(b[3])) for b in boxes if b[4]}
    for page, kind, target, r, n in boxes:
        if (page, kind, target, tuple(r)) not in used:
            raise Violation('link', 'a %s link to %r at %r on page %d covers no word that was '
                            'given it' % (kind, target, r, page + 1))
    # the middle of a word that has no link is under no link
    linked = {}
    for kind, value, page, x0, x1, base, *_ in links:
        linked.setdefault(page, []).append((kind, key(value).decode('latin'), x0, x1, base))
    by_page = {}
    for b in boxes:
        by_page.setdefault(b[0], []).append(b)
    for p in pars:
        for e, o in zip(p.words, p.obs):
            for s, (x0, x1) in zip(e.segs, model.seg_widths(e, o)):
                base, size = piece(o, x0, x1, s.style)
                mid = (x0 + x1) / 2
                mine = {(t.kind, key(t.value).decode('latin')) for t in s.tags
                        if t.kind in ('ref', 'uri')}
                for b in by_page.get(o.page, ()):
                    if (b[1], b[2]) not in mine and b[3] not in deep and b[3][0] + 0.1 < mid < b[3][2] - 0.1 and \
                            b[3][1] < base + 0.2 * size < b[3][3]:
                        raise Violation('link', 'the word %r on page %d lies under a %s link to '
                                        '%r it was not given' % (o.t, o.page + 1, b[1], b[2]))
