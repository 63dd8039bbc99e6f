"""Text in the fonts of the user is shown with their glyphs, or reported."""
import copy as _copy

from .. import docs, gen, observe, pdfread, program, session, typefaces, world
from ..careful import Careful, Failed
from ..core import Violation, Invalid
from .p10 import gen_fault, BENIGN

ID = 'P16'
LEVEL = 'exploration'
RUNS = {'quick': 2500, 'thorough': 150000}
FROZEN = ('setup',)
TECHNIQUE = ('seeded histories of fonts added and registered, and of texts, boxes and tables written '
             'in them, over a simulated disk that fails in planned ways; in the saved file every '
             'embedded font is opened and every glyph shown is compared, by shape and width, with '
             'the one its character has in the font file it was given')
LEVEL_NOTE = ('histories, font files and storage faults are sampled from one seed; the font files '
              'are made from one in the repository; the library and fontTools are real, the disk, '
              'destination, clock and random source are simulated')
DIR = '/simdisk/fonts/'


class Words(gen.Words):
    more = ''

    def one(self):
        t = gen.Words.one(self)
        r = self.rng
        if self.more and r.random() < 0.4:
            t += ''.join(r.choice(self.more) for _ in range(r.choice([1, 1, 2, 4])))
        return t


def generate(rng, tier, index):
    f = program.features(rng)
    f.update(elems=[1, 2, 4], mark=0, long=rng.choice([3, 12]), families=[], image=0,
             rows=[1, 2, 3])
    W = Words(rng, special=rng.choice([0.1, 0.5]), maxlen=rng.choice([2, 5]))
    high = rng.random() < 0.15
    W.more = rng.choice(['', typefaces.GREEK + typefaces.CYRILLIC, '*()\\' + '\xe9\xff',
                         typefaces.GREEK + '*'])
    if high:
        W.more += typefaces.HIGH
    if rng.random() < 0.2:
        W.more += typefaces.BLANK
    pool = ['high', 'highonly'] if high else typefaces.GOOD
    files = {}

    def file():
        k = 'huge' if not high and rng.random() < 0.01 else rng.choice(pool)
        p = DIR + rng.choice(['%s.ttf', '%s 1.TTF', 'x/%s']) % k
        files[p] = k
        return p
    fams = ['Fam %s' % c if rng.random() < 0.2 else 'Fam' + c
            for c in 'ABC'[:rng.choice([1, 1, 2, 3])]]
    how = {}
    for fam in fams:
        if rng.random() < 0.5:     # registered: each style has a file
            four = [file() for _ in range(rng.choice([1, 2, 4]))]
            how[fam] = {'how': 'register', 'files': {
                m: rng.choice(four) for m in ('n', 'b', 'i', 'bi')}}
        else:                      # added to the document: some of them
            ms = [m for m in ('b', 'i', 'bi') if rng.random() < 0.4]
            how[fam] = {'how': 'add', 'files': {m: file() for m in ['n'] + ms}}
    f['ttf'] = fams
    sc = {'fams': how, 'files': files, 'images': {}, 'ops': [], 'ttf': [],
          'setup': program.gen_setup(rng), 'context': W.context(),
          'formats': {'fa': {'b': True}, 'fb': gen.text_style(rng, dict(f, style=1))}}
    sc['setup']['font_family'] = rng.choice(fams)
    f.update(vars=['one', 'two'], var=0.1, formats=['fa', 'fb'])
    mix = [(5, 'text'), (3, 'content'), (1.5, 'table'), (0.6, 'add_page'), (0.4, 'running'),
           (0.4, 'save'), (0.7, 'again'), (0.4, 'refused'), (0.3, 'other'), (0.5, 'late')]
    ops = sc['ops']
    added = [x for x in fams if how[x]['how'] == 'add']
    for _ in range(rng.choice([2, 3, 5, 8])):
        k = gen.pick(rng, mix)
        if k == 'again':
            if not added:
                continue
            op = {'op': k, 'family': rng.choice(added),
                  'mode': rng.choice(['n', 'b', 'i', 'bi']), 'file': file()}
        elif k == 'late':
            op = {'op': k, 'family': rng.choice(['Late', 'Later']), 'file': file(),
                  'mode': rng.choice(['n', 'b', 'i', 'bi']), 'text': W.some(2),
                  'style': rng.choice(['', '', ';b', ';i', ';b;i'])}
            if rng.random() < 0.7:
                op['fault'] = gen_fault(rng)
                op['then'] = {'file': file(), 'mode': rng.choice(['n', 'b', 'i', 'bi'])}
        elif k == 'refused':
            op = {'op': k, 'family': rng.choice(fams + ['New']), 'mode': rng.choice(['n', 'b'])}
        elif k == 'other':
            op = {'op': k, 'text': W.some(3), 'family': rng.choice(fams)}
        else:
            op = program.gen_op(rng, W, f, None, k)
            if k == 'running':
                op['desc'].setdefault('style', {})['s'] = 5
        if k in ('text', 'content', 'table', 'again', 'running') and rng.random() < 0.35:
            op['fail'] = {'kind': 'storage', 'skip': rng.choice([0, 0, 0, 1]),
                          'nth': rng.randint(0, 5), 'fault': gen_fault(rng)}
        ops.append(op)
    if len(ops) > 1 and rng.random() < 0.3:
        sc['twice'] = True
        sc['turn'] = rng.choice([0, 0, 1, 2])
    return sc


def given(v):
    """What the library is given: characters that the fonts don't have"""
    if isinstance(v, str):
        return v.replace(typefaces.BLANK, typefaces.MISSING)
    if isinstance(v, dict):
        return {given(k) if k.startswith('.') else k: given(x) for k, x in v.items()}
    if isinstance(v, list):
        return [given(x) for x in v]
    return _copy.copy(v)


class Typist(Careful):
    def __init__(self, sc, log):
        Careful.__init__(self, sc, log, images={}, dup=given)
        self.pdf.context.update(given(self.context))
        self.ttf = {}
        self.torn = False   # a part of a font file was read
        for fam, d in sc['fams'].items():
            if set(d['files']) - {'n', 'b', 'i', 'bi'} or 'n' not in d['files'] or \
                    any(p not in sc['files'] for p in d['files'].values()):
                raise Invalid('files')
            if d['how'] == 'register':
                if len(d['files']) < 4:
                    raise Invalid('files')
                from pdfme.fonts import PDFFont
                for m, p in d['files'].items():
                    PDFFont.register(fam, m, p)
            else:
                for m, p in d['files'].items():
                    self.pdf.add_font(p, fam, m)
            self.ttf[fam] = {m: sc['files'][p] for m, p in d['files'].items()}
        self.b.env = self.env()

    def op_context(self, op, wrap):
        raise Invalid('op')

    def op_again(self, op, wrap):
        """Another file for a family"""
        fam, m, p = op['family'], op['mode'], op['file']
        if self.sc['fams'][fam]['how'] != 'add' or p not in self.sc['files']:
            raise Invalid('file')
        wrap(lambda: self.pdf.add_font(p, fam, m))
        self.ttf = dict(self.ttf)
        self.ttf[fam] = dict(self.ttf[fam])
        self.ttf[fam][m] = self.sc['files'][p]

    def op_late(self, op, wrap):
        """A family added late, with another file when the first one fails"""
        fam = op['family']
        for d, fault in ((op, op.get('fault')), (op.get('then'), None)):
            if not d:
                return
            if d['file'] not in self.sc['files']:
                raise Invalid('file')
            was = dict(self.log.faults)
            if fault:
                world.disk.plan[d['file']] = [dict(fault)]
            try:
                self.pdf.add_font(d['file'], fam, d['mode'])
            except (Exception, KeyboardInterrupt):
                fired = [k for k, n in self.log.faults.items() if n > was.get(k, 0)
                         and k not in BENIGN]
                if not fired:
                    raise
                self.log.n('additions refused')
                continue
            finally:
                world.disk.plan = {}
            if self.log.faults.get('disk:truncated', 0) > was.get('disk:truncated', 0):
                raise Invalid('torn')
            self.ttf = dict(self.ttf)
            k = self.sc['files'][d['file']]
            self.ttf[fam] = dict(self.ttf.get(fam, {'n': k}))
            self.ttf[fam][d['mode']] = k
            break
        self.op_text({'op': 'text', 'desc': {'.f:' + fam + op['style']: [op['text']]},
                      'args': {}}, lambda fn: fn())

    def op_refused(self, op, wrap):
        try:
            self.pdf.add_font(DIR + 'restricted.ttf', op['family'], op['mode'])
        except Exception:
            self.log.n('fonts refused')
        else:
            raise Violation('accepted', 'a font whose embedding is forbidden was taken')

    def op_other(self, op, wrap):
        """Meanwhile another document is written"""
        from pdfme import PDF
        if self.sc['fams'].get(op['family'], {}).get('how') != 'register':
            return
        pdf = PDF([300, 400], margin=20)
        pdf.add_page()
        pdf.text(given({'.f:' + op['family']: [op['text']]}))
        v = self.read(session.save(pdf, self.log))
        got = [w.t for w in v.words]
        if got != op['text'].split():
            raise Violation('other', 'another document shows %r instead of %r' % (
                got, op['text']))
        want = self.ttf[op['family']]['n']
        used = {s[1][0] for w in v.words for s in w.segs}
        if used - {want}:
            raise Violation('other', 'another document is written in %r, not in %r' % (
                used, want))

    def read(self, data):
        v = observe.View(data)
        typefaces.check_used(v.pdf.fonts.values(), self.log)
        return v

    def check(self, data):
        self.saves += 1
        self.log.n('saves')
        v = self.read(data)
        self.check_view(v)
        return v

    def spoil(self, f):
        def wrap(fn):
            paths = sorted(self.sc['files'])
            if f['kind'] != 'storage' or not paths:
                raise Invalid('fail')
            path = paths[f['nth'] % len(paths)]
            world.disk.plan[path] = [None] * f['skip'] + [dict(f['fault'])]
            was = dict(self.log.faults)
            try:
                fn()
            except (Exception, KeyboardInterrupt) as e:
                fired = [k for k, n in self.log.faults.items() if n > was.get(k, 0)
                         and k not in BENIGN]
                if isinstance(e, session.TooManyPages) or not fired:
                    raise
                self.log.n('additions refused')
                self.torn = self.torn or 'disk:truncated' in fired
                raise Failed()
            finally:
                world.disk.plan = {}
            if self.log.faults.get('disk:truncated', 0) > was.get('disk:truncated', 0):
                self.torn = True
            self.log.n('additions with faults done')
        return wrap


def execute(sc, log):
    world.reset(16)
    world.disk.log = world.memory.log = log
    session.budget()
    typefaces.prepare()
    pdfread.IDENTIFY = typefaces.identify
    from .. import model
    model.TTF_FILES.update({k: v for k, v in typefaces.FILES.items()})
    world.disk.files[DIR + 'restricted.ttf'] = typefaces.FILES['restricted']
    log.state('fonts', sorted(sc['files'].values()))
    for t in range(2 if sc.get('twice') else 1):
        if t and sc.get('turn'):   # meanwhile the files were replaced
            paths, kinds = sorted(sc['files']), sorted(set(sc['files'].values()))
            if kinds[0] in typefaces.GOOD:
                kinds = sorted({*kinds, 'plain'})
            sc = dict(sc, files={p: kinds[(kinds.index(sc['files'][p]) + sc['turn']) % len(kinds)]
                                 for p in paths})
        for p, k in sc['files'].items():
            if k not in typefaces.FILES:
                raise Invalid('file')
            world.disk.files[p] = typefaces.FILES[k]
        c = Typist(sc, log)
        for op in sc['ops']:
            if op['op'] not in ('text', 'content', 'table', 'add_page', 'running', 'save', 'again',
                                'refused', 'other', 'late'):
                raise Invalid('op')
            if 'fail' in op:
                log.state(op['op'], sorted(op['fail']['fault'].items()), op['fail']['skip'])
                c.attempt(op)
            else:
                c.do(op)
            if world.disk.still_open():
                raise Violation('leak', 'files were left open: %r' % world.disk.still_open())
            world.disk.handles = []
        v = c.final()
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])


def prepare():
    typefaces.prepare()


DESCRIBE = {
    'rule': 'a run counts each save in which every glyph shown was compared with the one its '
            'character has in the font file, and its place with the widths of that file',
    'states': 'distinct (operation, storage fault) pairs and sets of font files',
    'real': program.REAL, 'stubs': program.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right',
                    'fontTools reads font files rightly'],
}
