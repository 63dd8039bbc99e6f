"""A client whose operations may fail, and who goes on all the same."""
import copy as _copy

from . import layout, marks, model, program, session, world
from .core import Violation, Invalid

# what no description may hold; put somewhere into a good one
BAD = {
    'style': {'.': ['bad'], 'style': 'nosuchformat'},
    'font': {'.f:NoSuchFont': ['bad']},
    'type': {'.': ['bad'], 'style': 5},
    'file': {'image': '/simdisk/nosuchfile.png'},
    'extension': {'image': '/simdisk/what.gif'},
    'size': {'.': ['bad'], 'style': {'s': 'big'}},
    'uri': {'.': ['bad', {'.': 5, 'style': 'nosuchformat'}]},
    'cols': {'content': [{'.': ['bad']}], 'cols': 3},
    'table': {'table': [['bad'], ['bad', 'bad']]},
    'widths': {'table': [['bad', 'bad']], 'widths': [1, 2, 3]},
}


EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'exit': SystemExit}


class Failed(BaseException):
    """The operation failed as planned."""


def spoiler(f, log, paths):
    def wrap(fn):
        if f['kind'] == 'line':
            fired, out = world.spoil_line(fn, f, log, EXC[f['exc']])
            if fired and out == 'done':
                raise Violation('swallowed', 'an operation interrupted by %s returned as if '
                                'nothing had happened' % f['exc'])
            if fired:
                raise Failed()
            return
        if f['kind'] == 'disk' and paths:
            world.disk.plan[paths[f['nth'] % len(paths)]] = [{'kind': f['fault']}]
        left = world.disk.opens
        try:
            fn()
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, session.TooManyPages):
                raise
            log.fault('operation:' + f['kind'])
            raise Failed()
        finally:
            world.disk.plan = {}
        if f['kind'] == 'bad':
            raise Violation('accepted', 'an operation with the error %r returned as if nothing '
                            'had happened' % f['what'])
    return wrap


class Careful(program.Client):
    """A client that goes on after failures."""

    def attempt(self, op):
        f = op['fail']
        at = len(self.roots), len(self.direct), len(self.extra), len(self.pdf.pages)
        self.failed_roots = getattr(self, 'failed_roots', [])
        wrap = self.spoil(f)
        try:
            if f['kind'] == 'bad':
                self.bad(op, f, wrap)
            else:
                self.do(op, wrap)
            return
        except Failed:
            self.log.n('failed')
            self.log.state('failed', op['op'], f['kind'], f.get('exc', f.get('fault')),
                           int(f.get('u', 0) * 40), len(self.pdf.pages) - at[3])
        k = op['op']
        for r in self.roots[at[0]:]:
            self.half(r)
            self.failed_roots.append(r)
        if k in ('image', 'made'):
            self.maybe_image(op)
        self.new_pages(op if k == 'add_page' else None)
        for r in self.extra[at[2]:]:   # the last page may be half made
            if r.boxes[0][0] == len(self.pages) - 1:
                self.half(r)
        if k == 'setup':   # say all of it again
            w = dict(page_size=list(self.size), rotate_page=self.rotate, margin=self.margin)
            self.pdf.setup_page(**_copy.deepcopy(w))
        if k == 'running' and len(self.pdf.running_sections) > len(self.running):
            r = [session.num(op[x]) for x in 'xywh']
            self.running.append((op['desc'], r))
        try:
            self.pdf.page_index
        except AttributeError:
            if self.pages:
                self.pdf.page_index = 0
        if self.pages:
            self.cur = self.pdf.page_index
            self.pdf.page_index = self.cur
            if k in ('text', 'content', 'table', 'image', 'made', 'add_page') and \
                    not self.sc.get('stay') and not op.get('again'):
                self.op_add_page({'op': 'add_page'}, lambda fn: fn())

    def spoil(self, f):
        return spoiler(f, self.log, sorted(self.sc.get('images', {})))

    def half(self, root):
        for n in root.walk():
            n.optional = True
            if n.kind == 'par':
                n.par.prefix_ok = True
                if n.par.bullet:
                    n.par.bullet.prefix_ok = True

    def maybe_image(self, op):
        self.loose = getattr(self, 'loose', [])
        self.loose.append(op)

    def bad(self, op, f, wrap):
        """A good description with something bad in it."""
        op = _copy.deepcopy(op)
        b = _copy.deepcopy(BAD[f['what']])
        k = op['op']
        if k == 'image':
            def call():
                self.pdf.image({'file': '/simdisk/nosuchfile.jpg', 'extension': '/simdisk/a.gif'}
                               .get(f['what'], 5), **self.kw(op, ('x', 'y', 'width')))
            self.op_add_page({'op': 'add_page'}, lambda fn: fn())
            wrap(call)
            return
        d = op['desc']
        if k == 'text':
            if f['what'] in ('file', 'extension', 'cols', 'table', 'widths'):
                b = BAD['style']
            spoiled = {'.': [d, b]} if f['at'] < 0.5 else {'.': [b, d]}
            a = op.get('args', {})
            args = {x: a[x] for x in layout.PAR if x in a}
            args.setdefault('text_align', self.b.defaults['text_align'])
            self.flow(lambda: self.b.root_text(op['desc'], **args),
                      lambda pdf: pdf.text(spoiled, **self.dup(a)), wrap)
        elif k == 'content':
            spoiled = self.dup(d)
            at = int(f['at'] * (len(spoiled['content']) + 1))
            spoiled['content'].insert(at, b)
            self.flow(lambda: self.b.root_content(d), lambda pdf: pdf.content(spoiled), wrap)
        elif k == 'table':
            spoiled = self.dup(d)
            t = spoiled['table']
            if 'table' in b or 'content' in b:
                b = BAD['font']
            t.append([b] + [None] * (len(t[0]) - 1))
            kw = {x: d[x] for x in ('widths', 'borders', 'fills') if x in d}
            like = d['table'] + [[''] + t[-1][1:]]
            self.flow(lambda: self.b.root_table(like, d.get('style'), **kw),
                      lambda pdf: pdf.table(t, style=d.get('style'), **kw), wrap)
        else:
            raise Invalid('bad')

    def check_view(self, v):
        program.check_pages(v, self.pages)
        v.images = program.take_direct(v.images, self.direct, self.images)
        for op in getattr(self, 'loose', []):   # at most once, anywhere
            hit = [e for e in v.images if self.images[op['file']]['match'](e) and
                   abs(e['x'] - op['x']) < 0.01 and abs(e['y'] - op['y']) < 0.01]
            if hit:
                v.images.remove(hit[-1])
        failed = getattr(self, 'failed_roots', [])
        if failed and self.sc.get('stay'):
            self.placed(v)
        else:
            layout.check_view(v, self.b, self.roots + self.extra, self.images, self.log)
            program.overlap([r for r in self.roots if r not in failed])
        marks.check(v, self.roots, self.extra, self.level, self.log, failed)
        self.log.n('evaluations')
        self.log.n('pages', len(v.pages))

    def placed(self, v):
        """All that was added is there and in its place; what failed may lie
        under it."""
        pars = self.b.pars
        model.assign(v.words, pars)
        for p in pars:
            if p.obs and (p.of is None or p.of.obs and model.plain_start(p.of)):
                p.check_style()
        for p in pars:
            if p.of is None and p.obs:
                room = min(w for _, _, w, _, _ in layout.node_slots(p.node))
                need = max(o.x1 - o.x + (p.args.get('indent', 0) if i == 0 else 0)
                           for i, o in enumerate(p.obs)) + layout.list_indent(p)
                if need > room - 0.05:
                    raise Invalid('no room')
        layout.observe_pars(pars)
        for p in pars:
            if p.of is None:
                layout.check_par(p)
        layout.observe_images(self.b.images, v.images,
                              lambda n, e: self.images[n.file]['match'](e))
        for r in self.roots + self.extra:
            layout.order(r)
