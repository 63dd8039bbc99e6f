"""Paragraphs over any sequence of rectangles."""
from .. import gen, model, session, stage, world
from ..core import Violation, Invalid

ID = 'P03'
LEVEL = 'exploration'
RUNS = {'quick': 8000, 'thorough': 600000}
TECHNIQUE = ('a seeded scheduler serves several paragraphs rectangles of random sizes and pages in '
             'random turns; an independent reader of the saved file checks every word, line and rule')
LEVEL_NOTE = ('sampled, not exhaustive: interleavings of paragraphs over rectangles are drawn from '
              'one seed; the layout code is real, only sink, clock and random source are simulated')
FROZEN = ('setup',)


def generate(rng, tier, index):
    W = gen.Words(rng, special=rng.choice([0, 0.1, 0.4]))
    ttf = ['Open'] if rng.random() < 0.12 else []
    f = {'style': rng.choice([0, 0.4, 0.9]), 'long': rng.choice([5, 30, 90]),
         'br': rng.choice([0, 0.1, 0.4]), 'glue': rng.choice([0, 0.2, 0.6]),
         'list': rng.choice([0, 0.3, 0.8]), 'indent': rng.choice([0, 0.3, 0.9]),
         'ttf': ttf, 'var': 0.3, 'vars': ['one', 'two', 'three', 'four', 'none']}
    size = rng.choice([[300, 260], [420, 200], [240, 400], [595, 842]])
    sc = {'setup': {'size': size, 'margin': rng.choice([10, 20, 40]), 'ttf': ttf},
          'context': W.context(), 'pars': [], 'turns': []}
    n = rng.choice([1, 1, 2, 3, 5])
    tight = rng.random() < 0.5
    for _ in range(n):
        args = gen.par_args(rng, W, f)
        if ttf and args.get('text_align') == 'j':
            args['text_align'] = 'l'
        sc['pars'].append({'desc': gen.paragraph(rng, W, f), 'args': args,
                           'auto': rng.random() < 0.35})
    for _ in range(rng.randint(1, 10)):
        # who is served next, where, on which page
        sc['turns'].append({
            'who': rng.randint(0, n - 1), 'page': rng.random() < 0.3,
            'x': rng.choice([0, 30, 60.5]), 'y': rng.choice([0, 25, 80]),
            'w': rng.choice([150, 180.25, 220]),
            'h': rng.choice([0, 3, 11, 13, 20, 26, 40, 41.7] if tight
                            else [20, 60, 100, 200]), 'how': stage.gen_cursor(rng)})
    return sc


def need(par, env):
    """Room the widest word and the tallest line need."""
    return None


def execute(sc, log):
    from pdfme import PDF
    from pdfme.text import PDFText
    world.reset(3)
    world.disk.log = world.memory.log = log
    setup = sc['setup']
    session.ttf_setup(setup['ttf'])
    session.budget()
    pdf = PDF(page_size=setup['size'], margin=setup['margin'])
    pdf.context.update(sc['context'])
    env = model.Env(context=sc['context'], ttf={k: session.TTF_LOOK for k in setup['ttf']})
    pdf.add_page()
    pars = []
    live = {}
    m = setup['margin']
    W, H = setup['size']
    for p in sc['pars']:
        if p['args'].get('line_height', 1) < 1 or p['args'].get('list_text', 'x') == '':
            raise Invalid('arguments')
    base = {'f': 'Helvetica', 's': 11, 'c': 0.1}

    def start(i):
        p = sc['pars'][i]
        e = model.Par(p['desc'], base, env, 'paragraph %d' % i)
        e.args = p['args']
        e.boxes = []
        pars.append(e)
        lt = p['args'].get('list_text')
        if lt is not None and e.words:
            st = dict(e.words[0].segs[0].style)
            st.update(p['args'].get('list_style') or {})
            b = model.Par(lt, st, env, 'bullet of paragraph %d' % i)
            # the text of the bullet is literal
            b.of = e
            e.bullet = b
            pars.append(b)
        return e

    def serve(i, box, how):
        x, y, w, h = box
        log.n('steps')
        if i not in live:
            e = start(i)
            p = sc['pars'][i]
            t = stage.placed(pdf, box, how, lambda **k: pdf._text(p['desc'], **k, **p['args']))
            live[i] = (t, e)
        else:
            t, e = live[i]
            t = stage.placed(pdf, box, how, lambda **k: pdf._text(t, **k))
            live[i] = (t, e)
        e.boxes.append((len(pdf.pages) - 1, x, H - y, w, h))
        log.n('rectangles')
        log.state('turn', bool(t.finished), t.current_height > 0, len(e.boxes),
                  sorted(p['args']) if len(e.boxes) == 1 else 0, round(h))
        return t.finished

    try:
        done = set()
        for t in sc['turns']:
            i = t['who']
            if not 0 <= i < len(sc['pars']) or i in done:
                continue
            if t['page']:
                pdf.add_page()
            if sc['pars'][i]['auto'] and i not in live:
                e = start(i)
                p0 = len(pdf.pages) - 1
                y0 = pdf.page.y
                p = sc['pars'][i]
                pdf.text(p['desc'], **p['args'])
                log.n('steps')
                cw = W - 2 * m
                e.boxes.append((p0, m, H - y0, cw, H - m - y0))
                for k in range(p0 + 1, len(pdf.pages)):
                    e.boxes.append((k, m, H - m, cw, H - 2 * m))
                done.add(i)
                continue
            if serve(i, (m + t['x'], m + t['y'], session.num(t['w']), session.num(t['h'])),
                     t.get('how', {})):
                done.add(i)
        for i in range(len(sc['pars'])):
            tries = 0
            while i not in done:
                pdf.add_page()
                tries += 1
                if tries > 60:
                    raise Violation('stuck', 'paragraph %d is not finished after 60 whole '
                                    'pages' % i)
                if serve(i, (m, m, W - 2 * m, H - 2 * m), {'at': tries % 2}):
                    done.add(i)
    except session.TooManyPages as e:
        raise Violation('endless', str(e))
    v = session.view(pdf, log)
    check(v, pars, log)
    log.n('pages', len(v.pages))
    log.n('words', len(v.words))
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])


def check(v, pars, log):
    model.assign(v.words, pars)
    used_l = set()
    used_r = set()
    log.n('evaluations')
    for p in pars:
        if p.of is None or model.plain_start(p.of):
            p.check_style()
        if p.of is not None:
            continue
        check_boxes(p, log)
    ul, ur = model.underlines(v, [p for p in pars if p.of is None])
    if crossing(pars):
        return   # one paragraph may lie upon the rules of another
    if len(ul) != len(v.lines):
        k = [i for i in range(len(v.lines)) if i not in ul][0]
        raise Violation('stray-rule', 'a rule is drawn under no underlined word: %r'
                        % (v.lines[k],))
    if len(ur) != len(v.rects):
        k = [i for i in range(len(v.rects)) if i not in ur][0]
        raise Violation('stray-fill', 'a background is drawn behind no word that has one: %r'
                        % (v.rects[k],))


def crossing(pars):
    boxes = [b for p in pars if p.of is None for b in p.boxes]
    for i, (pa, xa, ya, wa, ha) in enumerate(boxes):
        for pb, xb, yb, wb, hb in boxes[:i]:
            if pa == pb and xa < xb + wb and xb < xa + wa and \
                    ya - ha < yb + 2 and yb - hb < ya + 2:
                return True
    return False


def lines_of(p):
    """observed lines of a paragraph: [[(expected, observed)]]"""
    out = []
    for e, o in zip(p.words, p.obs):
        if out:
            q = out[-1][-1][1]
            if o.page == q.page and abs(o.y - q.y) < 0.01 and o.par == q.par:
                out[-1].append((e, o))
                continue
        out.append([(e, o)])
    return out


def check_boxes(p, log):
    """Some way to hand the lines out to the rectangles, in order, must fit."""
    lines = lines_of(p)
    args = p.args
    li = 0
    if p.bullet is not None:
        li = args.get('list_indent')
        if li is None:
            look = p.bullet.obs[0].segs[0][1] if p.bullet.obs else \
                p.env.look(p.bullet.runs[0].style)
            li = model.measure(args['list_text'], look)
    at = {-1}
    tall = tallest(p)
    for k, line in enumerate(lines):
        nxt = set()
        err = None
        for b, box in enumerate(p.boxes):
            if not any(a <= b for a in at):
                continue
            e = fits(p, line, k, lines, box, li)
            if e is None and not line[0][0].br and not any(
                    a <= b and not skipped(p, lines, k, a, b, tall) for a in at):
                e = 'skipped', '%s: line %d (%r) is in rectangle %d though there was room in ' \
                    'one before: %r' % (p.name, k, line[0][1].t, b, p.boxes)
            if e is None and b in at and not any(a < b for a in at):
                e = below(p, lines, k)
            elif e is None and b in at:
                e = below(p, lines, k) and top(p, line, k, box)
            elif e is None:
                e = top(p, line, k, box)
            if e is None:
                nxt.add(b)
            elif err is None or err[0] == 'outside':
                err = e
        if not nxt:
            raise Violation(*(err or ('outside', '%s: line %d has no rectangle left' % (p.name, k))))
        at = nxt
    if p.bullet is not None and p.bullet.obs and p.obs:
        b, o = p.bullet.obs[0], p.obs[0]
        if b.page != o.page or abs(b.y - o.y) > 0.01:
            raise Violation('bullet', '%s: its list text is not beside its first line' % p.name)


def tallest(p):
    """Room that is certainly enough for any line of this paragraph."""
    size = up = down = 0
    for q in (p, p.bullet):
        for r in q.runs if q is not None else ():
            if r is None:
                continue
            look = p.env.look(r.style)
            size = max(size, look[1])
            up = max(up, look[3])
            down = max(down, -look[3])
    return (size + up + down + 3) * max(1, p.args.get('line_height', 1.1))


def skipped(p, lines, k, a, b, tall):
    """Was there room for line k in a rectangle before b, its own, the previous
    line being in rectangle a?"""
    for j in range(max(a, 0), b):
        pg, x, ytop, w, h = p.boxes[j]
        room = h if j != a else lines[k - 1][0][1].y - (ytop - h) - tall
        if room >= tall:
            return True
    return False


def below(p, lines, k):
    a, b = lines[k - 1][0][1], lines[k][0][1]
    size = max(w.size for _, w in lines[k])
    size += model.reach(lines[k])[0] + model.reach(lines[k - 1])[1]
    if a.page != b.page or a.y - b.y < size * p.args.get('line_height', 1.1) - 0.01:
        return 'overlap', '%s: line %d is %.2f below the previous one, its size is %.2f' % (
            p.name, k, a.y - b.y, size)


def top(p, line, k, box):
    size = max(w.size for _, w in line)
    if k == 0 and p.bullet is not None and p.bullet.obs:
        size = max(size, p.bullet.obs[0].size)
    if box[2] - line[0][1].y < size - 0.01:
        return 'overlap', '%s: line %d sticks out of the top of its rectangle' % (p.name, k)


def fits(p, line, k, lines, box, li):
    """-> None or what is wrong with this line in this rectangle"""
    pg, x, ytop, w, h = box
    o = line[0][1]
    if o.page != pg or not ytop - h - 0.05 <= o.y <= ytop + 0.05:
        return 'outside', '%s: line %d (%r at %.2f, %.2f on page %d) is in none of the ' \
            'rectangles left to it: %r' % (p.name, k, o.t, o.x, o.y, o.page + 1, p.boxes)
    how = p.args.get('text_align') or 'l'
    left = x + li + (p.args.get('indent', 0) if k == 0 else 0)
    right = x + w
    a, b = line[0][1].x, line[-1][1].x1
    for (_, o), (_, q) in zip(line, line[1:]):
        if q.x < o.x1 - 0.05:
            return 'overlap', '%s: %r at %.2f overlaps %r' % (p.name, q.t, q.x, o.t)
    if b - a > right - left and len(line) == 1:
        return None  # a single word wider than the rectangle
    if a < left - 0.05 or b > right + 0.1:
        return 'outside', '%s: line %d spans %.2f to %.2f, its room is %.2f to %.2f' % (
            p.name, k, a, b, left, right)
    if how == 'l' or how == 'j':
        ok = abs(a - left) < 0.05
    elif how == 'c':
        ok = abs((a + b) / 2 - (left + right) / 2) < 0.05
    else:
        ok = abs(b - right) < 0.05
    last = k == len(lines) - 1 or lines[k + 1][0][0].br
    if how == 'j' and not last and len(line) > 1:
        ok = ok and abs(b - right) < 0.1
    if ok and not last and k + 1 < len(lines):
        err = model.short(p, line, lines[k + 1], left, right, how)
        if err:
            return err
    if not ok:
        return 'align', '%s: line %d spans %.2f to %.2f, between %.2f and %.2f ' \
            'aligned %r' % (p.name, k, a, b, left, right, how)


DESCRIBE = {
    'rule': 'a run counts once its document was saved, read back and every word compared',
    'states': 'distinct (turn outcome, placed something, rectangles so far, paragraph '
              'arguments, rectangle height) tuples seen while serving rectangles',
    'real': ['pdfme.pdf', 'pdfme.text', 'pdfme.fonts', 'pdfme.page', 'pdfme.base',
             'pdfme.parser', 'pdfme.utils', 'pdfme.color', 'fontTools'],
    'stubs': ['output sink', 'random source', 'clock'],
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right'],
}
