"""Images from unreliable storage are embedded right or reported."""
import copy as _copy
import io
import pathlib

from .. import docs, gen, layout, observe, program, session, stage, world
from ..careful import Careful, Failed
from ..core import Violation, Invalid

ID = 'P10'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 200000}
FROZEN = ('setup',)
TECHNIQUE = ('seeded histories of additions of images by path, path object and stream, alone, in '
             'boxes, tables and running sections, over a simulated disk that fails in planned ways; '
             'every picture shown in the saved file is decoded and compared with the one of its '
             'file, open handles and streams are watched, failed additions are tried again')
LEVEL_NOTE = ('histories, pictures and storage faults are sampled from one seed; the library and '
              'Pillow are real, the disk, destination, clock and random source are simulated')

KINDS = ['enoent', 'eacces', 'emfile', 'eio', 'short', 'eintr', 'nomem', 'truncate', 'garbage',
         'empty', 'seek-error']
BENIGN = ('disk:short-read',)


class Pictures(gen.Images):
    """Image files of all kinds, and how the user hands them over."""

    def __init__(self, rng):
        gen.Images.__init__(self, rng, ('jpg', 'jpg', 'png'))
        self.sources = {}

    def one(self, rmin=0.3, rmax=1.5):
        path = gen.Images.one(self, rmin, rmax)
        r = self.rng
        spec = self.files.pop(path)
        spec['fill'] = r.choice(['flat', 'gradient', 'halves'])
        how = r.choice(['str', 'str', 'Path', 'bytes', 'raw'])
        src = {'how': how}
        if spec['kind'] == 'png':
            spec['mode'] = r.choice(['RGB', 'L', 'RGBA', 'LA', 'P', '1', 'I;16'])
        else:
            spec['mode'] = r.choice(['RGB', 'RGB', 'L', 'CMYK'])
            spec['opts'] = {k: True for k in ('progressive', 'thumb', 'comment')
                            if r.random() < 0.3}
            if 'thumb' in spec['opts'] and r.random() < 0.5:
                spec['opts']['thumb'] = 'bare'
            if r.random() < 0.2:
                spec['opts']['tail'] = r.choice([1, 9, 600])
            if r.random() < 0.3:
                spec['opts']['quality'] = r.choice([30, 60, 95])
        stem = path.rpartition('.')[0]
        if r.random() < 0.3:    # the same name in many folders
            stem = r.choice(['/simdisk/d%s/pic', '/simdisk/d.%s/pic']) % stem[12:]
        ext = r.choice({'jpg': ['jpg', 'jpg', 'jpeg', 'JPG', 'Jpeg'],
                        'png': ['png', 'png', 'PNG']}[spec['kind']])
        path = '%s.%s' % (stem + r.choice(['', '', ' b', '.0']), ext)
        if r.random() < 0.2:
            path = stem + r.choice(['', '.dat', '.png' if spec['kind'] == 'jpg' else '.jpg'])
            src['extension'] = r.choice(['', '.']) + ext
        if how in ('bytes', 'raw'):
            src.setdefault('extension', ext)
            src['name'] = r.choice([path, 'picture %d' % len(self.files)])
            if r.random() < 0.3:
                src['pos'] = r.choice([1, 20, 10**6])
            if how == 'raw':
                src['buf'] = r.choice([1, 16, 512, 8192])
        self.files[path] = spec
        self.sources[path] = src
        return path


def gen_fault(rng):
    k = rng.choice(KINDS)
    f = {'kind': k}
    if k in ('eio', 'eintr', 'nomem'):
        f['at'] = rng.choice([0, 0, 1, 2, 3, 5])
        f['buf'] = rng.choice([1, 16, 64, 512, 8192])
    elif k == 'short':
        f['at'] = rng.choice([1, 2, 7, 100])
        f['buf'] = rng.choice([1, 2, 16, 8192])
    elif k == 'truncate':
        f['part'] = rng.choice([0.001, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97, 0.99, rng.random()])
    return f


def generate(rng, tier, index):
    if rng.random() < 0.15:
        f = docs.features(rng)
        f.update(long=8, elems=[1, 2, 4], mark=0, image=rng.choice([0.3, 0.7]))
        d = docs.generate(rng, f)
        d.update(kind='document', setup={},
                 faults=[[rng.randint(0, 9), rng.choice([0, 0, 0, 1, 2]), gen_fault(rng)]
                         for _ in range(rng.choice([1, 2, 3]))])
        return d
    f = program.features(rng)
    f.update(elems=[1, 2, 4], mark=0, long=rng.choice([4, 10]), image=rng.choice([0.3, 0.6, 0.9]))
    W = gen.Words(rng, maxlen=2)
    P = Pictures(rng)
    f.update(vars=['one', 'two'], var=0.1, formats=['fa'], ttf=[])
    sc = {'setup': program.gen_setup(rng), 'kind': 'program', 'ops': [],
          'context': W.context(), 'formats': {'fa': {'b': True}}}
    mix = [(5, 'image'), (3, 'content'), (1.5, 'table'), (0.7, 'text'), (0.5, 'add_page'),
           (0.4, 'running'), (0.3, 'save'), (0.6, 'made')]
    ops = sc['ops']
    runs = []
    for _ in range(rng.choice([2, 4, 7, 11])):
        op = gen_op(rng, W, f, P, gen.pick(rng, mix))
        ops.append(op)
        used = files_in(op)
        if op['op'] == 'running':
            runs += used
            used = []
        elif rng.random() < 0.4:
            used = used + runs
        if used and rng.random() < 0.6:
            hit = [rng.choice(used)] + ([rng.choice(used)] if rng.random() < 0.3 else [])
            op['fail'] = {'kind': 'storage', 'faults': [
                [h, rng.choice([0, 0, 0, 1, 2, 3]), gen_fault(rng)] for h in hit]}
            for h in hit:
                if rng.random() < 0.7:
                    ops.append({'op': 'image', 'file': h, 'x': 33, 'y': 44, 'width': 30})
    sc['images'] = P.files
    sc['sources'] = P.sources
    sc['twice'] = rng.random() < 0.3
    return sc


def files_in(v):
    out = []
    if isinstance(v, dict):
        for k, x in v.items():
            if k in ('image', 'file') and isinstance(x, str):
                out.append(x)
            else:
                out += files_in(x)
    elif isinstance(v, list):
        for x in v:
            out += files_in(x)
    return out


def gen_op(rng, W, f, P, k):
    if k == 'made':   # one image object, put in several places
        op = program.gen_op(rng, W, f, P, 'image')
        op['op'] = 'made'
        op['places'] = [[rng.choice([20, 50.5]), 40 + 90 * i] for i in range(rng.choice([1, 2, 3]))]
        op['width'] = rng.choice([20, 45.5])
        op.pop('height', None)
        return op
    op = program.gen_op(rng, W, f, P, k)
    if k == 'image' and len(P.files) > 1 and rng.random() < 0.4:
        P.files.pop(op['file'])      # one that was used already
        P.sources.pop(op['file'])
        op['file'] = rng.choice(sorted(P.files))
    if k == 'running' and rng.random() < 0.7:
        e = {'image': P.one(0.2, 0.5)}
        op['desc'] = {'content': [e]}
        op.update(x=rng.choice([5, 30]), y=2, w=rng.choice([15, 22.5]), h=14)
    return op


class Reader(Careful):
    """A user of images"""

    def __init__(self, sc, log, streams=None, images=None):
        self.sources = sc['sources']
        self.streams = {} if streams is None else streams
        self.log = log
        self.names = set()
        images = stage.load_images(sc['images']) if images is None else images
        Careful.__init__(self, sc, log, images=images, dup=self.handed)

    def stream(self, path):
        if path not in self.streams:
            s = self.sources[path]
            data = world.disk.files[path]
            if s['how'] == 'bytes':
                f = io.BytesIO(data)
            else:
                f = io.BufferedReader(world.Raw(path, data, None), s.get('buf', 8192) or 1)
            f.seek(min(s.get('pos', 0), len(data)))
            self.streams[path] = f
        return self.streams[path]

    def source(self, path):
        """-> what the library is given for the image"""
        if path not in self.sources or path not in world.disk.files:
            raise Invalid('image')
        s = self.sources[path]
        how = s.get('how', 'str')
        kw = {}
        if s.get('extension') is not None:
            kw['extension'] = s['extension']
        if how in ('bytes', 'raw'):
            if not s.get('name') or 'extension' not in s:
                raise Invalid('stream')
            kw['image_name'] = s['name']
            kw['image'] = self.stream(path)
        elif how == 'Path':
            kw['image'] = pathlib.Path(path)
        else:
            kw['image'] = path
        self.names.add(kw.get('image_name', path))
        return kw

    def handed(self, v):
        if isinstance(v, dict):
            d = {k: self.handed(x) for k, x in v.items()}
            if isinstance(v.get('image'), str):
                d.update(self.source(v['image']))
            return d
        if isinstance(v, list):
            return [self.handed(x) for x in v]
        return _copy.copy(v)

    # -- operations
    def op_image(self, op, wrap):
        self.placed_image(op, [[op['x'], op['y']]], wrap, lambda kw: lambda: self.pdf.image(
            **self.source(op['file']), **kw))

    def op_made(self, op, wrap):
        def make(kw):
            def go():
                im = self.pdf.create_image(**self.source(op['file']))
                for x, y in op['places']:
                    self.pdf.add_image(im, **dict(kw, x=x, y=y))
            return go
        self.placed_image(op, op['places'], wrap, make)

    def placed_image(self, op, places, wrap, make):
        if op['file'] not in self.images:
            raise Invalid('image')
        self.op_add_page({'op': 'add_page'}, lambda fn: fn())
        kw = {k: op[k] for k in ('x', 'y', 'width', 'height', 'move') if op.get(k) is not None}
        iw, ih = self.images[op['file']]['size']
        w, h = op.get('width'), op.get('height')
        if w is None and h is None:
            w = self.pages[self.cur].box(0)[3]
        if w is None:
            w = h * iw / ih
        if h is None:
            h = w * ih / iw
        i = self.cur
        wrap(make(kw))
        for x, y in places:
            self.direct.append((i, session.num(x), session.num(y), w, h, op['file']))
        self.op_add_page({'op': 'add_page'}, lambda fn: fn())

    # -- faults
    def spoil(self, f):
        """A wrapper that makes the storage fail as planned while it lasts."""
        if f['kind'] != 'storage':
            raise Invalid('fail')

        def wrap(fn):
            for path, skip, fault in f['faults']:
                if path not in self.sources:
                    continue
                how = self.sources[path].get('how', 'str')
                if how in ('str', 'Path'):
                    world.disk.plan.setdefault(path, [None] * skip).append(dict(fault))
                elif isinstance(self.stream(path), io.BufferedReader) and fault['kind'] in ('eio', 'short', 'eintr', 'nomem',
                                                        'seek-error'):
                    raw = self.stream(path).raw
                    raw.fault, raw.n = dict(fault), 0
                    if fault['kind'] != 'seek-error':   # what is read is not in the buffer yet
                        self.streams[path].seek(0, 2)
                elif fault['kind'] in ('truncate', 'empty'):
                    whole = self.stream(path)
                    n = int(len(world.disk.files[path]) * fault.get('part', 0))
                    self.streams[path] = io.BytesIO(world.disk.files[path][:n])
                    self.whole = getattr(self, 'whole', {})
                    self.whole.setdefault(path, whole)
                    self.log.fault('disk:truncated')
            was = dict(self.log.faults)
            try:
                fn()
            except (Exception, KeyboardInterrupt) as e:
                fired = [k for k, n in self.log.faults.items() if n > was.get(k, 0)
                         and k not in BENIGN]
                torn = any(k in getattr(self, 'whole', {}) for k, _, _ in f['faults'])
                if isinstance(e, session.TooManyPages) or not fired and not torn:
                    raise
                self.shut()    # now, not when the error is forgotten
                self.log.n('additions refused')
                raise Failed()
            finally:
                world.disk.plan = {}
                for path, s in getattr(self, 'whole', {}).items():
                    self.closed(path)
                    self.streams[path] = s
                self.whole = {}
                for s in self.streams.values():
                    if hasattr(s, 'raw') and not s.closed:
                        s.raw.fault = {}
            self.log.n('additions with faults done')
        return wrap

    def maybe_image(self, op):
        for x, y in op.get('places', [[op['x'], op['y']]]):
            Careful.maybe_image(self, dict(op, x=x, y=y))

    def closed(self, path):
        if self.streams[path].closed:
            raise Violation('closed', 'the stream of %s, which the user owns, was closed' % path)

    def shut(self):
        if world.disk.still_open():
            raise Violation('leak', 'files were left open: %r' % world.disk.still_open())

    def watch(self):
        self.shut()
        world.disk.handles = []
        for path in self.streams:
            self.closed(path)

    def check_view(self, v):
        Careful.check_view(self, v)
        stored = [o for o in v.pdf.objects.values()
                  if hasattr(o, 'dic') and o.dic.get('Subtype') == 'Image']
        if len(stored) > len(self.names):
            raise Violation('stored-again', 'the file has %d images, only %d were used' % (
                len(stored), len(self.names)))


def execute(sc, log):
    world.reset(10)
    world.disk.log = world.memory.log = log
    session.budget()
    if sc['kind'] == 'document':
        return document(sc, log)
    c = Reader(sc, log)
    for op in sc['ops']:
        if op['op'] not in ('image', 'made', 'content', 'table', 'text', 'add_page', 'running',
                            'save'):
            raise Invalid('op')
        if 'fail' in op:
            c.attempt(op)
            for path, _, fault in op['fail']['faults']:
                how = sc['sources'].get(path, {}).get('how')
                log.state(op['op'], how, sorted(fault.items()),
                          sc['images'].get(path, {}).get('mode'))
        else:
            c.do(op)
        c.watch()
    v = c.final()
    c.watch()
    if sc.get('twice'):   # the streams serve another document
        c2 = Reader(sc, log, c.streams, c.images)
        for op in sc['ops']:
            c2.do(op)
        c2.final()
        c2.watch()
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words],
              [(e['page'], e['ref'], round(e['x'], 2)) for e in v.images])


def document(sc, log):
    """Every try to make the document fails or gives the right one."""
    d = docs.Doc(sc, log)
    d.build()   # does it fit?
    paths = sorted(sc['images'])

    def go():
        from pdfme.document import PDFDocument
        o = PDFDocument(_copy.deepcopy(d.doc), dict(d.context))
        o.run()
        return o
    for nth, skip, fault in sc['faults'] + [[0, 0, None]]:
        if not paths:
            raise Invalid('no images')
        path = paths[nth % len(paths)]
        if fault is not None:
            world.disk.plan = {path: [None] * skip + [dict(fault)]}
        was = dict(log.faults)
        o = None
        try:
            o = go()
        except (Exception, KeyboardInterrupt) as e:
            fired = [k for k, n in log.faults.items() if n > was.get(k, 0) and k not in BENIGN]
            if not fired or isinstance(e, session.TooManyPages):
                raise
            if world.disk.still_open():
                raise Violation('leak', 'files were left open: %r' % world.disk.still_open())
            log.n('documents refused')
        finally:
            world.disk.plan = {}
        if world.disk.still_open():
            raise Violation('leak', 'files were left open: %r' % world.disk.still_open())
        world.disk.handles = []
        log.state('document', sorted((fault or {}).items()), skip)
        if o is not None:
            s = world.Sink(None, log)
            o.output(s)
            d.check(observe.View(bytes(s.got)))


DESCRIBE = {
    'rule': 'a run counts each save whose pictures were decoded and compared with those of their '
            'files, together with all else on the pages',
    'states': 'distinct (operation, way the image is given, storage fault with its place, picture '
              'mode) tuples',
    'real': docs.REAL, 'stubs': docs.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right',
                    'Pillow decodes JPEG files rightly',
                    'bits flipped inside the compressed data of a file are not noticed'],
}
