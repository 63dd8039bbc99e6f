"""An independent reading of the document descriptions: which words must
appear, in which order and with which style."""
import io
import sys

from .core import Violation, Invalid

def named():
    """The names of CSS, from another library; pdfme writes the values over 256."""
    from PIL import ImageColor
    out = {}
    for n in ImageColor.colormap:
        out[n] = tuple(round((v + 1) / 256, 3) if v else 0 for v in ImageColor.getrgb(n))
    return out


COLORS = named()
BOOL = {'1': True, '0': False}

STD = {
    'Helvetica': {'n': 'Helvetica', 'b': 'Helvetica-Bold', 'i': 'Helvetica-Oblique',
                  'bi': 'Helvetica-BoldOblique'},
    'Times': {'n': 'Times-Roman', 'b': 'Times-Bold', 'i': 'Times-Italic',
              'bi': 'Times-BoldItalic'},
    'Courier': {'n': 'Courier', 'b': 'Courier-Bold', 'i': 'Courier-Oblique',
                'bi': 'Courier-BoldOblique'},
    'Symbol': {'n': 'Symbol'},
    'ZapfDingbats': {'n': 'ZapfDingbats'},
}
TEXT = {'f': 'Helvetica', 'c': 0.1, 's': 11, 'r': 0}


def color(c):
    if c is None or c == '':
        return None
    if isinstance(c, bool):
        raise Invalid('color')
    if isinstance(c, (int, float)):
        return (round(c, 3),)
    if isinstance(c, (list, tuple)):
        if not all(isinstance(x, (int, float)) for x in c) or len(c) not in (1, 3):
            raise Invalid('color')
        return tuple(round(x, 3) for x in c)
    if c in COLORS:
        return COLORS[c]
    if c.startswith('#') and len(c) == 7:
        return tuple(round(int(c[i:i + 2], 16) / 255, 3) for i in (1, 3, 5))
    if c.startswith('#') and len(c) == 4:
        return tuple(round(int(x, 16) / 15, 3) for x in c[1:])
    try:
        v = [float(x) for x in c.replace(',', ' ').split(' ')]
    except ValueError:
        raise Invalid('color')
    if len(v) not in (1, 3):
        raise Invalid('color')
    return tuple(round(x, 3) for x in v)


def dot(s):
    """'b;s:10;c:red' -> style"""
    out = {}
    for part in s.split(';'):
        if not part:
            continue
        k, _, v = part.partition(':')
        if k in ('b', 'i', 'u'):
            out[k] = True if not _ else BOOL.get(v, None)
            if out[k] is None:
                raise Invalid('dot')
        elif k in ('s', 'r'):
            try:
                out[k] = float(v)
            except ValueError:
                raise Invalid('dot')
        elif k == 'f':
            out[k] = v
        elif k in ('c', 'bg'):
            out[k] = v
        else:
            raise Invalid('dot key %r' % s)
    return out


class Env:
    """What a description is read against."""

    def __init__(self, formats=None, context=None, base=None, ttf=None):
        self.formats = formats or {}
        self.context = context or {}
        self.base = dict(TEXT)
        self.base.update(base or {})
        self.ttf = ttf or {}

    def style(self, s):
        if s is None:
            return {}
        if isinstance(s, str):
            if s not in self.formats:
                raise Invalid('format')
            return self.formats[s]
        if not isinstance(s, dict):
            raise Invalid('style')
        return s

    def look(self, st):
        """style -> what the reader of the PDF sees of it"""
        mode = ('b' if st.get('b') else '') + ('i' if st.get('i') else '') or 'n'
        f = st.get('f', 'Helvetica')
        if f in STD:
            font = STD[f].get(mode, STD[f]['n'])
        elif f in self.ttf:
            font = self.ttf[f].get(mode) or self.ttf[f]['n']
        else:
            raise Invalid('font')
        s = st.get('s', 11)
        return (font, round(s, 3), color(st.get('c', 0.1)),
                round(st.get('r', 0) * s, 3))


def dot_key(d):
    ks = [k for k in d if k.startswith('.')]
    return ks[0] if ks else None


class Seg:
    __slots__ = ('t', 'style', 'tags')

    def __init__(self, t, style, tags):
        self.t = t
        self.style = style
        self.tags = tags


class Tag:
    """label, ref, uri, outline or footnote on a part of a paragraph"""

    def __init__(self, kind, value, extra=None):
        self.kind = kind
        self.value = value
        self.extra = extra
        self.words = []


def plain(desc, env):
    """What a reader would read out."""
    if isinstance(desc, dict):
        if 'var' in desc:
            return str(env.context.get(desc['var'], ''))
        if 'footnote' in desc:
            return ''
        k = dot_key(desc)
        desc = desc[k] if k is not None else ''
    if isinstance(desc, (list, tuple)):
        return ''.join(plain(e, env) for e in desc)
    return str(desc)


def runs(desc, style, env, tags=(), out=None):
    """Flatten a paragraph -> list of Seg and None (line break)."""
    if out is None:
        out = []
    if isinstance(desc, (int, float)) and not isinstance(desc, bool):
        desc = str(desc)
    if isinstance(desc, str):
        desc = {'.': [desc]}
    elif isinstance(desc, (list, tuple)):
        desc = {'.': desc}
    if not isinstance(desc, dict):
        raise Invalid('paragraph')
    style = dict(style)
    k = dot_key(desc)
    elems = []
    if k is not None:
        style.update(dot(k[1:]))
        elems = desc[k]
        if isinstance(elems, (int, float)):
            elems = [str(elems)]
        if isinstance(elems, str):
            elems = [elems]
        if not isinstance(elems, (list, tuple)):
            raise Invalid('dot value')
    if 'footnote' in desc:
        tag = Tag('footnote', desc['footnote'])
        style.update(env.style('$footnote'))
        more = (Tag('label', desc['label']),) if 'label' in desc else ()
        out.append(Seg('\x01', style, tuple(tags) + more + (tag,)))
        return out
    style.update(env.style(desc.get('style')))
    tags = list(tags)
    if 'var' in desc:
        elems = [str(env.context.get(desc['var'], ''))]
        if not isinstance(desc['var'], str):
            raise Invalid('var')
    for kind in ('label', 'ref', 'uri'):
        if kind in desc:
            if not isinstance(desc[kind], str):
                raise Invalid(kind)
            tags.append(Tag(kind, desc[kind]))
    if 'outline' in desc:
        o = desc['outline']
        if not isinstance(o, dict):
            raise Invalid('outline')
        text = o['text'] if 'text' in o else plain(desc, env)
        tags.append(Tag('outline', text, (o.get('level', 1), desc.get('label'))))
    tags = tuple(tags)
    for e in elems:
        if isinstance(e, (int, float)) and not isinstance(e, bool):
            e = str(e)
        if isinstance(e, str):
            for i, line in enumerate(e.split('\n')):
                if i:
                    out.append(None)
                if line or 'var' in desc:
                    out.append(Seg(line, style, tags))
        elif isinstance(e, dict):
            runs(e, style, env, tags, out)
        else:
            raise Invalid('element')
    return out


class EWord:
    """A word that must appear."""
    __slots__ = ('t', 'segs', 'br', 'gap')

    def __init__(self):
        self.t = ''
        self.segs = []
        self.br = False  # first word after a line break


def split(rs):
    out = []
    cur = None
    br = False
    gap = []
    for r in rs:
        if r is None:
            cur = None
            br = True
            continue
        for i, piece in enumerate(r.t.split(' ')):
            if i:
                cur = None
                if gap[-1:] != [r]:     # many spaces of one run count once
                    gap.append(r)
            if piece:
                if cur is None:
                    cur = EWord()
                    cur.br = br
                    cur.gap = gap
                    gap = []
                    br = False
                    out.append(cur)
                cur.t += piece
                cur.segs.append(Seg(piece, r.style, r.tags))
    return out


class Par:
    """A paragraph that must appear; .obs is what was seen of it."""

    def __init__(self, desc, style, env, name, pages=None, **kw):
        self.name = name
        self.env = env
        self.runs = runs(desc, style, env)
        self.words = split(self.runs)
        self.pages = pages      # pages it may be on, None: any
        self.obs = []
        self.bullet = None      # Par of the list text
        self.of = None
        self.prefix_ok = False  # may stop early (its operation failed)
        for k, v in kw.items():
            setattr(self, k, v)

    def tags(self):
        seen = []
        for w in self.words:
            for s in w.segs:
                for t in s.tags:
                    if t not in seen:
                        seen.append(t)
        return seen

    def check_style(self):
        for e, o in zip(self.words, self.obs):
            want = []
            for s in e.segs:
                lk = self.env.look(s.style)
                if want and want[-1][1] == lk:
                    want[-1][0] += s.t
                else:
                    want.append([s.t, lk])
            if not same_segs(want, o.segs):
                raise Violation('style', '%s: word %r is shown as %r, described as %r'
                                % (self.name, e.t, o.segs, want))


def same_segs(a, b):
    if len(a) != len(b):
        return False
    for (t, (f, s, c, r)), (t2, (f2, s2, c2, r2)) in zip(a, b):
        if t != t2 or f != f2 or abs(s - s2) > 0.0011 or abs(r - r2) > 0.0021:
            return False
        if c is not None:
            if len(c) != len(c2) or any(abs(x - y) > 0.0011 for x, y in zip(c, c2)):
                return False
    return True


def assign(words, pars):
    """Every word seen belongs to exactly one expected paragraph, next in its
    order; every expected word is seen. Fills par.obs."""
    choices = []        # [position, alternatives left] where a word could be of several
    try:
        return assign_once(words, pars, {}, choices)
    except Violation:
        first = sys.exc_info()[1]
    forced = {}
    for _ in range(200):    # the words could be shared out in another way
        while choices and not choices[-1][1]:
            choices.pop()
        if not choices:
            raise first
        pos, rest = choices[-1]
        forced = {p: c for p, c in forced.items() if p < pos}
        forced[pos] = rest.pop(0)
        try:
            return assign_once(words, pars, forced, choices)
        except Violation:
            continue
    raise first


def assign_once(words, pars, forced, choices):
    where = {}
    ptr = [0] * len(pars)
    for p in pars:
        p.obs = []
    for k, p in enumerate(pars):
        for i, w in enumerate(p.words):
            where.setdefault(w.t, []).append((k, i))
    last = None
    for pos, o in enumerate(words):
        cs = [(k, i) for k, i in where.get(o.t, ())
              if pars[k].pages is None or o.page in pars[k].pages]
        if not cs:
            if o.t in where:
                raise Violation('misplaced', 'word %r of %s is on page %d' % (
                    o.t, pars[where[o.t][0][0]].name, o.page + 1))
            raise Violation('stray-text', 'word %r on page %d was never written'
                            % (o.t, o.page + 1))
        nxt = [(k, i) for k, i in cs if ptr[k] == i]
        if not nxt:
            k, i = cs[0]
            p = pars[k]
            if len(cs) == 1 and i < ptr[k]:
                raise Violation('repeated', '%s: word %d %r appears again on page %d '
                                '(first on page %d)' % (p.name, i, o.t, o.page + 1,
                                                        p.obs[i].page + 1))
            if all(i < ptr[k] for k, i in cs):
                raise Violation('repeated', '%s: word %r appears again on page %d'
                                % (p.name, o.t, o.page + 1))
            k, i = [c for c in cs if c[1] > ptr[c[0]]][0]
            p = pars[k]
            raise Violation('lost-or-disordered', '%s: word %d %r on page %d comes where word '
                            '%d %r was due' % (p.name, i, o.t, o.page + 1, ptr[k],
                                               p.words[ptr[k]].t))
        if len(nxt) > 1:
            same = [c for c in nxt if c[0] == last]
            # a word all could claim: the one whose following words come next
            if not same:
                best = None
                for k, i in nxt:
                    n = 0
                    for d in range(1, 6):
                        if i + d < len(pars[k].words) and pos + d < len(words) and \
                                pars[k].words[i + d].t == words[pos + d].t:
                            n += 1
                        else:
                            break
                    if best is None or n > best[0]:
                        best = (n, (k, i))
                same = [best[1]]
            if pos in forced:
                same = [forced[pos]]
            elif not choices or choices[-1][0] < pos:
                choices.append([pos, [c for c in nxt if c != same[0]]])
            nxt = same
        k, i = nxt[0]
        ptr[k] += 1
        pars[k].obs.append(o)
        last = k
    for k, p in enumerate(pars):
        if ptr[k] < len(p.words) and not p.prefix_ok:
            raise Violation('lost', '%s: %d of %d words are missing, first %r'
                            % (p.name, len(p.words) - ptr[k], len(p.words),
                               p.words[ptr[k]].t))


def check_reading_order(p):
    """Within a page and column the words of a paragraph go down, then right."""
    prev = None
    for o in p.obs:
        if prev is not None:
            if o.page < prev.page:
                raise Violation('disordered', '%s: %r on page %d follows %r on page %d'
                                % (p.name, o.t, o.page + 1, prev.t, prev.page + 1))
            if o.page == prev.page:
                if abs(o.y - prev.y) < 0.01:
                    if o.x < prev.x1 - 0.05:
                        raise Violation('overlap', '%s: %r at %.2f overlaps %r ending at %.2f'
                                        % (p.name, o.t, o.x, prev.t, prev.x1))
                elif o.y > prev.y and o.x < prev.x1 + 0.1 and not getattr(p, 'columns', False):
                    raise Violation('disordered', '%s: %r is above %r'
                                    % (p.name, o.t, prev.t))
        prev = o


def underlines(view, pars, lines=None, rects=None, tol=0.06):
    """Underlined words have a rule under them and nothing else has; the same
    for backgrounds. lines/rects: those not accounted for otherwise."""
    lines = view.lines if lines is None else lines
    rects = view.rects if rects is None else rects
    used_l = set()
    used_r = set()
    for p in pars:
        for e, o in zip(p.words, p.obs):
            x = o.x
            # pieces of the word, left to right, by description
            widths = seg_widths(e, o)
            for s, (x0, x1) in zip(e.segs, widths):
                size = s.style.get('s', 11)
                base = o.y + s.style.get('r', 0) * size
                if s.style.get('u'):
                    hit = [i for i, ln in enumerate(lines)
                           if ln['page'] == o.page and
                           min(ln['p'][0][0], ln['p'][-1][0]) <= x0 + tol and
                           max(ln['p'][0][0], ln['p'][-1][0]) >= x1 - tol and
                           abs(ln['p'][0][1] - ln['p'][-1][1]) < 0.01 and
                           base - 0.3 * size <= ln['p'][0][1] <= base + 0.01]
                    want = color(s.style.get('c', 0.1))
                    hit = [i for i in hit if len(lines[i]['color']) == len(want) and all(
                        abs(a - b) < 0.0011 for a, b in zip(lines[i]['color'], want))]
                    if not hit:
                        raise Violation('underline', '%s: %r on page %d is not underlined'
                                        % (p.name, o.t, o.page + 1))
                    # of several (borders of a table below) the likeliest
                    used_l.add(min(hit, key=lambda i: (
                        round(abs(lines[i]['p'][0][1] - base + 0.07 * size), 1), round(abs(
                            lines[i]['p'][0][0] - lines[i]['p'][-1][0]), 2), i in used_l, i)))
                bg = color(s.style.get('bg'))
                if bg is not None:
                    hit = [i for i, r in enumerate(rects)
                           if r['page'] == o.page and r['x'] <= x0 + tol and
                           r['x'] + r['w'] >= x1 - tol and
                           r['y'] <= base + 0.01 and r['y'] + r['h'] >= base + 0.5 * size
                           and same_color(r['color'], bg)]
                    if not hit:
                        raise Violation('background', '%s: %r on page %d has no background'
                                        % (p.name, o.t, o.page + 1))
                    used_r.add(min(hit, key=lambda i: (
                        round(rects[i]['w'] * rects[i]['h'], 1), i in used_r, i)))
    return used_l, used_r


def same_color(a, b):
    return len(a) == len(b) and all(abs(x - y) < 0.0011 for x, y in zip(a, b))


def seg_widths(e, o):
    """x extents of the described pieces of a word, by the observed glyphs"""
    total = sum(len(s.t) for s in e.segs)
    n = max(1, len(o.t))
    if len(e.segs) == 1 or total != len(o.t):
        return [(o.x, o.x1)] * len(e.segs)
    out = []
    at = 0
    xs = o.cx
    for s in e.segs:
        out.append((xs[at], xs[at + len(s.t)]))
        at += len(s.t)
    return out


_TTF = {}


def measure(text, look):
    """width of text in a font at a size, by tables of our own"""
    from . import pdfread
    font, size = look[0], look[1]
    if font in TTF_FILES:
        if font not in _TTF:
            from fontTools import ttLib
            t = TTF_FILES[font]
            f = ttLib.TTFont(io.BytesIO(t) if isinstance(t, bytes) else t)
            _TTF[font] = (f.getBestCmap(), f['hmtx'].metrics, f['head'].unitsPerEm)
        cmap, hmtx, upm = _TTF[font]
        return sum(hmtx[cmap.get(ord(c), '.notdef')][0] for c in text) / upm * size
    w = pdfread.metrics()[font]
    return sum(w[ord(c)] for c in text) / 1000 * size


def short(p, line, following, left, right, how):
    """Would the first word of the next line have fitted on this one?"""
    e = following[0][0]
    space = [sum(measure(' ', p.env.look(r.style)) for r in w.gap)
             for w in [x for x, _ in line[1:]] + [e]]
    width = sum(measure(g.t, p.env.look(g.style)) for g in e.segs)
    if how == 'j':  # blanks of 7 tenths of their width at least
        used = sum(measure(g.t, p.env.look(g.style)) for w, _ in line for g in w.segs)
        used += 0.7 * sum(space)
    else:
        used = line[-1][1].x1 - line[0][1].x + space[-1]
    if used + width < right - left - 0.2:
        return 'short', '%s: a line ends with %r though %r fits on it too: %.2f of %.2f' % (
            p.name, line[-1][1].t, e.t, used + width, right - left)


def reach(line):
    """How far raised words stick out of a line, and how far lowered ones do."""
    rs = [seg[1][3] for _, o in line for seg in o.segs]
    return max([0] + rs), max([0] + [-r for r in rs])


TTF_FILES = {}


def plain_start(p):
    """no other style comes before the first word"""
    for r in p.runs:
        if r is p.words[0].segs[0] or r is not None and r.t.strip():
            return True
        if r is not None and p.env.look(r.style) != p.env.look(p.words[0].segs[0].style):
            return False
    return True
