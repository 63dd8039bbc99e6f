"""Documents built at the same time do not influence each other."""
import io
import json

from .. import careful, core, docs, gen, hold, observe, program, sched, session, stage, world
from ..core import Invalid, Violation

ID = 'P11'
LEVEL = 'exploration'
RUNS = {'quick': 900, 'thorough': 120000}
FROZEN = ('kind',)
TECHNIQUE = ('several documents are built by threads whose every switch is a place in the '
             'scenario (source lines of the library), or by one thread that takes their '
             'operations in turns; they share descriptions, formats, images and fonts, some fail '
             'or register fonts; each is compared with the same document built alone in a process '
             'of its own')
LEVEL_NOTE = ('documents, interleavings and faults are sampled from one seed; threads switch at '
              'source lines, not inside them; the library is real, the destination, disk, clock '
              'and random source are simulated')

FILES = ['fonts.py', 'base.py', 'pdf.py', 'image.py', 'utils.py', 'document.py', 'color.py',
         'text.py', 'content.py', 'table.py', 'parser.py', 'encoders.py', 'page.py',
         'standard_fonts.py']
MIX = [('text', 5), ('content', 4), ('table', 3), ('image', 0.7), ('shared', 0.8),
       ('add_page', 0.7), ('setup', 0.4), ('running', 0.5), ('context', 0.3), ('format', 0.3)]


# ------------------------------------------------------------- generators

def gen_switches(rng, n):
    out = []
    for _ in range(rng.choice([0, 2, 5, 15, 40, 120])):
        r = rng.random()
        if r < 0.4:
            s = ['t', rng.choice([1, 3, 10, 40, 200, 1000, 5000])]
        elif r < 0.75:
            s = ['n', rng.choice([1, 2, 5, 20, 100])]
        else:
            s = [rng.choice(FILES[:7] if rng.random() < 0.7 else FILES),
                 rng.choice([1, 2, 4, 10, 30])]
        out.append(s + [rng.randint(0, n - 1)])
    return out


def renamed(v, k):
    return json.loads(json.dumps(v).replace('/simdisk/img', '/simdisk/j%d_' % k))


def gen_job(rng, k):
    if rng.random() < 0.45:
        f = docs.features(rng)
        f.update(long=rng.choice([5, 12]), elems=[1, 2, 3], rows=[1, 2, 3],
                 mark=rng.choice([0, 0.3]), notes_rate=rng.choice([0, 0.3]),
                 sections=rng.choice([1, 2]), many=0)
        j = docs.generate(rng, f)
        j['kind'] = 'document'
    else:
        f = program.features(rng)
        f.update(long=rng.choice([5, 12]), elems=[1, 2, 3], rows=[1, 2, 3], many=0)
        j = gen_program(rng, f)
        j['kind'] = 'program'
    return renamed(j, k)


def gen_program(rng, f, n=None, prefix=''):
    mix = [(a, b) for a, b in MIX if a != 'shared']
    sc = program.generate(rng, f, mix, n or rng.choice([1, 2, 4]), prefix)
    for _ in range(rng.choice([0, 0, 1, 2])):
        sc['ops'].insert(rng.randint(0, len(sc['ops'])), {
            'op': 'shared', 'which': rng.randint(0, 2), 'x': rng.choice([20, 50.5]),
            'y': rng.choice([60, 100.25]), 'width': rng.choice([30, 75.5])})
    own = {}        # pictures of this document alone, under names that others use too
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        name = rng.choice(['logo', 'photo'])
        if name not in own:
            kind = rng.choice(['png', 'png', 'jpg'])
            own[name] = {'kind': kind, 'size': [5, 7] if name == 'logo' else [6, 4],
                         'color': [rng.choice([0, 90, 180, 255]) for _ in range(3)],
                         'mode': rng.choice(['RGB', 'RGB', 'L', 'RGBA' if kind == 'png'
                                             else 'CMYK'])}
        sc['ops'].insert(rng.randint(0, len(sc['ops'])), {
            'op': 'own', 'name': name, 'spec': own[name], 'x': rng.choice([20, 50.5]),
            'y': rng.choice([60, 100.25]), 'width': rng.choice([30, 75.5])})
    return sc


def gen_fail(rng):
    r = rng.random()
    if r < 0.6:
        return {'kind': 'line', 'at': rng.randint(0, rng.choice([100, 2000, 30000])),
                'exc': rng.choice(['interrupt', 'memory', 'exit'])}
    if r < 0.8:
        return {'kind': 'disk', 'fault': rng.choice(['eio', 'enoent', 'eacces', 'nomem']),
                'nth': rng.randint(0, 3)}
    return {'kind': 'sink', 'at': rng.randint(0, 60)}


def generate(rng, tier, index):
    n = rng.choice([2, 2, 3, 4])
    imgs = gen.Images(rng)
    shared = [imgs.one() for _ in range(3)]
    files = json.loads(json.dumps(imgs.files).replace('/simdisk/img', '/simdisk/shared'))
    sc = {'shared': files, 'share': rng.random() < 0.7}
    del shared
    if rng.random() < 0.35:
        sc['kind'] = 'turns'
        sc['jobs'] = []
        for k in range(n):
            f = program.features(rng)
            f.update(elems=[1, 2, 4], many=0)
            j = gen_program(rng, f, rng.choice([2, 3, 5]))
            if sc['jobs'] and rng.random() < 0.4:
                o = rng.choice(sc['jobs'])
                j = json.loads(json.dumps(o))
                if rng.random() < 0.5:
                    j['setup'] = program.gen_setup(rng, o['ttf'])
            else:
                j = renamed(j, k)
            j['kind'] = 'program'
            sc['jobs'].append(j)
        sc['order'] = [rng.randint(0, n - 1) for _ in range(sum(len(j['ops'])
                                                                for j in sc['jobs']))]
        return sc
    sc['kind'] = 'threads'
    sc['jobs'] = []
    for k in range(n):
        r = rng.random()
        if sc['jobs'] and r < 0.3 and sc['jobs'][-1]['kind'] != 'register':
            j = json.loads(json.dumps(rng.choice(sc['jobs'])))
            j.pop('fail', None)
        elif k and r < 0.42:
            j = {'kind': 'register', 'families': rng.choice([['Other'], ['Other', 'Third'],
                                                              ['Open']])}
        else:
            j = gen_job(rng, k)
            if rng.random() < 0.25:
                j['fail'] = gen_fail(rng)
        sc['jobs'].append(j)
    sc['after'] = rng.random() < 0.3
    sc['switches'] = gen_switches(rng, n)
    return sc


# ----------------------------------------------------------------- running

class Client(program.Client):
    made = None

    def op_shared(self, op, wrap):
        self.op_add_page({'op': 'add_page'}, lambda fn: fn())
        im, path, (iw, ih) = self.made[op['which'] % len(self.made)]
        w = op['width']
        i = self.cur
        wrap(lambda: self.pdf.add_image(im, x=op['x'], y=op['y'], width=w))
        self.direct.append((i, session.num(op['x']), session.num(op['y']), session.num(w),
                            w * ih / iw, path))
        self.op_add_page({'op': 'add_page'}, lambda fn: fn())


    def op_own(self, op, wrap):
        from pdfme.image import PDFImage
        self.op_add_page({'op': 'add_page'}, lambda fn: fn())
        spec, w = op['spec'], op['width']
        key = 'own %r' % sorted(spec.items())
        data = stage.picture(spec)
        self.images.setdefault(key, {'size': spec['size'], 'data': data,
                                     'match': stage.matcher(spec, data)})
        iw, ih = spec['size']
        i = self.cur

        def add():
            im = PDFImage(io.BytesIO(data), spec['kind'], op['name'])
            self.pdf.add_image(im, x=op['x'], y=op['y'], width=w)
        wrap(add)
        self.direct.append((i, session.num(op['x']), session.num(op['y']), session.num(w),
                            w * ih / iw, key))
        self.log.n('own')
        self.op_add_page({'op': 'add_page'}, lambda fn: fn())


def make_shared(sc):
    from pdfme.image import PDFImage
    images = stage.load_images(sc['shared'])
    made = [(PDFImage(p), p, sc['shared'][p]['size']) for p in sorted(sc['shared'])]
    return images, made


def run_job(j, held, images, made, log, plan=None):
    """-> bytes of the document"""
    if j['kind'] == 'register':
        session.ttf_setup(j['families'])
        return b''
    s = world.Sink(plan, log)
    if j['kind'] == 'document':
        d = docs.Doc(j, log, images)
        o = d.build(held['doc'], held['context'])
        o.output(s)
        return bytes(s.got)
    Client.made = made
    c = Client(j, log, images=images, dup=giving(j, held))
    for op in j['ops']:
        if op['op'] != 'save':
            c.do(op)
    if not c.pages:
        c.op_add_page({'op': 'add_page'}, lambda fn: fn())
    c.pdf.output(s)
    return bytes(s.got)


def holding(j, share, memo):
    what = {k: j[k] for k in ('doc', 'setup', 'ops', 'context', 'formats') if k in j}
    return hold.prepare(what, share, False, None, memo)


def giving(j, held):
    return hold.handed({k: j[k] for k in held}, held)


def plain(x):
    return json.loads(json.dumps(x))


def alone(sc, j):
    """What the document shows when it is built with nothing else around."""
    def go():
        log = core.Log()
        world.reset(110)
        world.disk.log = world.memory.log = log
        session.budget()
        images, made = make_shared(sc)
        images.update(stage.load_images(j.get('images', {})))
        try:
            data = run_job(j, holding(j, False, {}), images, made, log)
        except Invalid as e:
            return {'invalid': str(e)}
        except Exception as e:
            return {'error': '%s: %s' % (type(e).__name__, e)}
        return {'canon': observe.canon(observe.View(data))}
    res = core.child(go, 120)
    if res is None:
        raise Violation('endless', 'a document alone is never finished')
    if 'invalid' in res:
        raise Invalid(res['invalid'])
    return res


def execute(sc, log):
    world.reset(11)
    world.disk.log = world.memory.log = log
    if not isinstance(sc.get('jobs'), list) or not sc['jobs']:
        raise Invalid('jobs')
    if sc['kind'] == 'turns':
        return turns(sc, log)
    threads(sc, log)


def turns(sc, log):
    session.budget()
    images, made = make_shared(sc)
    for j in sc['jobs']:
        images.update(stage.load_images(j.get('images', {})))
    Client.made = made
    memo = {}
    cs = []
    for j in sc['jobs']:
        held = holding(j, sc.get('share'), memo)
        c = Client(j, log, images=images, dup=giving(j, held))
        c.todo = list(j['ops'])
        cs.append(c)
    last = None
    for k in sc['order']:
        left = [c for c in cs if c.todo]
        if not left:
            break
        c = left[k % len(left)]
        c.do(c.todo.pop(0))
        if last is not None and last is not c:
            log.n('switches')
        last = c
    for c in cs:
        while c.todo:
            c.do(c.todo.pop(0))
    log.state('turns', len(cs), [len(c.pages) for c in cs], bool(sc.get('share')))
    for k, c in enumerate(cs):
        try:
            c.final()
        except Violation as e:
            raise Violation(e.kind, 'document %d of %d: %s' % (k + 1, len(cs), e.msg))


def threads(sc, log):
    jobs = sc['jobs']
    want = [None if j['kind'] == 'register' else alone(sc, j) for j in jobs]
    session.budget()
    images, made = make_shared(sc)
    memo = {}
    held = []
    for j in jobs:
        images.update(stage.load_images(j.get('images', {})))
        held.append(None if j['kind'] == 'register' else holding(j, sc.get('share'), memo))
    plans = [None] * len(jobs)
    its = [None] * len(jobs)
    used = [p for k, j in enumerate(jobs) for p in j.get('images', {})]
    spoiled = set()
    for k, j in enumerate(jobs):
        f = j.get('fail')
        if not f:
            continue
        if f['kind'] == 'line':
            its[k] = (f['at'], careful.EXC[f['exc']])
        elif f['kind'] == 'sink':
            plans[k] = {'kind': 'error', 'at': f['at']}
        elif f['kind'] == 'disk':
            mine = [p for p in sorted(j.get('images', {})) if used.count(p) == 1]
            if mine:
                p = mine[f['nth'] % len(mine)]
                world.disk.plan[p] = [{'kind': f['fault']}]
                spoiled.add(k)
        else:
            raise Invalid('fail')

    def body(k):
        return lambda: run_job(jobs[k], held[k], images, made, log, plans[k])
    todo = [body(k) for k in range(len(jobs))]
    s = sched.Scheduler(todo, sc.get('switches', []), log, its)
    results = s.run()
    world.disk.plan = {}
    if sc.get('after'):      # one more, when all is over
        k = [i for i, j in enumerate(jobs) if j['kind'] != 'register']
        if k:
            jobs = jobs + [{x: y for x, y in jobs[k[0]].items() if x != 'fail'}]
            want.append(want[k[0]])
            plans.append(None)
            held.append(held[k[0]])
            try:
                results.append(('done', run_job(jobs[-1], held[-1], images, made, log)))
            except Exception as e:
                results.append(('raised', e))
            s.fired.append(False)
    for k, (how, v) in enumerate(results):
        who = 'document %d of %d' % (k + 1, len(jobs))
        failing = s.fired[k] or plans[k] is not None or k in spoiled
        w = want[k]
        if how == 'raised':
            if isinstance(v, Invalid):
                raise v
            if failing and not isinstance(v, (Violation, core.Steps)):
                log.n('failed')
                continue
            said = '%s: %s' % (type(v).__name__, v)
            if w is not None and w.get('error') == said:
                log.n('refused')
                continue
            if isinstance(v, Violation):
                raise v
            if isinstance(v, Exception):
                raise Violation('disturbed', '%s fails (%s) [%s], alone it %s' % (
                    who, said, core.short_tb(v),
                    'is made' if not w or 'error' not in w else 'fails with ' + w['error']))
            raise v
        if w is None:
            continue
        if s.fired[k]:
            raise Violation('swallowed', '%s was interrupted and is as if nothing had '
                            'happened' % who)
        if 'error' in w:
            raise Violation('disturbed', '%s is made, alone it fails with %s' % (who, w['error']))
        d = observe.difference(w['canon'], plain(observe.canon(observe.View(v))))
        if d:
            raise Violation('differs', '%s is not what it is alone: %s' % (who, d))
        log.n('comparisons')
    log.state('threads', len(jobs), len(s.trace), [how for how, _ in results])
    log.n('evaluations')



DESCRIBE = {
    'rule': 'a run counts once every document that was not made to fail was compared with what it '
            'is when it is built alone',
    'states': 'distinct source lines at which threads were switched, and distinct (threads, '
              'switches, outcomes) tuples',
    'real': program.REAL, 'stubs': program.STUBS + ['thread scheduler', 'locks made by pdfme'],
    'assumptions': ['threads are switched between source lines of pdfme only',
                    'a job that was made to fail is not compared'],
}
