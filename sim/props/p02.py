"""A failed save is reported, harms nothing and can be retried."""
import copy as _copy

from .. import core, docs, observe, program, session, world
from ..core import Violation, Invalid
from . import p01

ID = 'P02'
LEVEL = 'exploration'
RUNS = {'quick': 3000, 'thorough': 200000}
FROZEN = ('setup',)
TECHNIQUE = ('seeded histories of additions and saves with faults injected into the saves: failing, '
             'full and refusing destinations, no memory, interrupts at sampled source lines; every '
             'fault must surface, every later save is read back and compared with a model and with '
             'a twin document that was never saved in vain')
LEVEL_NOTE = ('histories and fault points are sampled from one seed; the library is real, the '
              'destination, disk, memory, clock and random source are simulated')

MIX = [('text', 5), ('content', 2.5), ('table', 1.5), ('image', 0.6), ('add_page', 1.2),
       ('setup', 0.4), ('goto', 0.6), ('running', 0.3), ('context', 0.2), ('save', 1.2),
       ('register', 0.2)]


def gen_fault(rng):
    r = rng.random()
    if r < 0.25:
        return {'kind': 'error', 'u': rng.random(), 'part': rng.choice([0, 0, 0.5, 1]),
                'errno': rng.choice([5, 32, 27, 122])}
    if r < 0.4:
        return {'kind': 'disk-full', 'u': rng.random()}
    if r < 0.48:
        return {'kind': 'interrupt', 'u': rng.random(), 'part': rng.choice([0, 1])}
    if r < 0.54:
        return {'kind': 'memory', 'u': rng.random()}
    if r < 0.62:
        return {'kind': 'refuse', 'u': rng.random()}
    if r < 0.72:
        return {'kind': 'compress', 'n': rng.randint(1, 12)}
    return {'kind': 'line', 'u': rng.random(), 'by': rng.choice(['time', 'place', 'write']),
            'exc': rng.choice(['interrupt', 'memory', 'exit'])}


def faults(rng):
    return [gen_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))]


def generate(rng, tier, index):
    r = rng.random()
    if r < 0.15:
        b = p01.gen_base(rng)
        ops = []
        for op in b['ops']:
            ops.append(op)
            if op['op'] == 'save' or rng.random() < 0.3:
                ops.insert(len(ops) - 1, {'op': 'fsave', 'faults': faults(rng)})
        b['ops'] = ops
        return {'kind': 'base', 'setup': {}, 'base': b}
    if r < 0.4:
        f = docs.features(rng)
        f.update(long=8, elems=[1, 2, 4], mark=rng.choice([0, 0.3, 0.6]))
        sc = docs.generate(rng, f)
        sc.update(kind='document', setup={}, faults=faults(rng), direct=rng.random() < 0.4)
        return sc
    f = program.features(rng)
    f.update(long=8, elems=[1, 2, 4], mark=rng.choice([0, 0.4, 0.7]), many=0.2)
    sc = program.generate(rng, f, MIX, rng.choice([1, 3, 5, 8]))
    sc['kind'] = 'program'
    ops = []
    for op in sc['ops']:
        ops.append(op)
        if rng.random() < 0.35:
            ops.append({'op': 'fsave', 'faults': faults(rng)})
            if rng.random() < 0.3:
                ops.append({'op': 'save', 'plan': program.gen_plan(rng)})
    ops.append({'op': 'fsave', 'faults': faults(rng)})
    sc['ops'] = ops
    return sc


EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'exit': SystemExit}


class Refusing(world.Sink):
    """Takes no more bytes at all after some time."""

    def write(self, data):
        if len(self.got) + len(data) > self.plan['room']:
            n = max(0, self.plan['room'] - len(self.got))
            self.got += bytes(data[:n])
            if not n:
                self.failed = True
                self.log.fault('sink:refuses')
            return n
        self.got += data
        return len(data)


def attempt(save, faults, log, measure):
    """save(sink) under each fault. -> bytes of those that came through"""
    done = []
    size = None
    for f in faults:
        k = f['kind']
        if k in ('error', 'interrupt', 'memory', 'disk-full', 'refuse') and size is None:
            size = measure()
        plan = {}
        if k in ('error', 'interrupt', 'memory'):
            plan = dict(f, at=int(f['u'] * (size['writes'] + 1)))
        elif k in ('disk-full', 'refuse'):
            plan = {'kind': k if k != 'refuse' else 'full', 'room': int(f['u'] * size['bytes'])}
        s = (Refusing if k == 'refuse' else world.Sink)(plan or None, log)
        log.n('steps')
        log.n('failing saves')
        fired, err = False, None
        if k == 'line':
            exc = EXC[f['exc']]
            fired, out = world.spoil_line(lambda: save(s), f, log, exc)
            if fired and out == 'done':
                raise Violation('swallowed', 'a save interrupted by %s returned as if nothing '
                                'had happened' % exc.__name__)
            log.state(k, f['exc'], int(f['u'] * 40), fired)
        else:
            if k == 'compress':
                world.memory.n, world.memory.fail = 0, f['n']
            try:
                save(s)
            except (world.SinkError, MemoryError, KeyboardInterrupt, OSError) as e:
                err = e
            finally:
                fired = s.failed or k == 'compress' and world.memory.n >= f['n']
                world.memory.fail = None
            if fired and err is None:
                raise Violation('unreported', 'a save with the fault %r returned as if it had '
                                'succeeded; the destination has %d bytes' % (f, len(s.got)))
            if err is not None and not fired:
                raise err
            want = {'error': world.SinkError, 'disk-full': world.SinkError, 'refuse': OSError,
                    'interrupt': KeyboardInterrupt, 'memory': MemoryError,
                    'compress': MemoryError}[k]
            if err is not None and not isinstance(err, want):
                raise Violation('other-error', 'a save with the fault %r ended with %r' % (f, err))
            log.state(k, int(f.get('u', f.get('n')) * 40), fired, f.get('part'))
        if not fired:
            done.append(bytes(s.got))
    return done


def measurer(save):
    """How long a save is, found out in a process of its own."""
    def run():
        s = world.Sink(None, core.Log())
        save(s)
        return {'bytes': len(s.got), 'writes': s.writes}

    def measure():
        r = core.child(run, 60)
        if not r or 'bytes' not in r:
            raise Invalid('cannot be measured: %r' % (r,))
        return r
    return measure


def fresh(log):
    world.reset(2)
    world.disk.log = world.memory.log = log


def execute(sc, log):
    fresh(log)
    session.budget()
    {'base': base, 'document': document, 'program': whole}[sc['kind']](sc, log)


def base(sc, log):
    def fsave(b, op, check):
        for data in attempt(b.output, op['faults'], log, measurer(b.output)):
            check(data)
    p01.base_run(sc['base'], log, fsave)


def twin_canon(sc, log):
    """What the same operations give without any save but the last."""
    fresh(log)
    c = program.Client({k: v for k, v in sc.items() if k != 'ops'}, core.Log())
    for op in sc['ops']:
        if op['op'] not in ('save', 'fsave'):
            c.do(op)
    if not c.pages:
        c.op_add_page({'op': 'add_page'}, lambda fn: fn())
    s = world.Sink(None, log)
    c.pdf.output(s)
    return observe.canon(observe.View(bytes(s.got)))


def whole(sc, log):
    c = program.Client(sc, log)
    for op in sc['ops']:
        if op['op'] == 'fsave':
            if c.pages:
                for data in attempt(c.pdf.output, op['faults'], log, measurer(c.pdf.output)):
                    c.check(data)
        else:
            c.do(op)
    v = c.final()
    got = observe.canon(v)
    d = observe.difference(twin_canon(sc, log), got)
    if d:
        raise Violation('differs', 'after failed saves: %s' % d)
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])


def document(sc, log):
    import pdfme
    d = docs.Doc(sc, log)
    if sc.get('direct'):
        # one call builds and saves; each failing try starts anew
        d.build()   # does not fit? then there is nothing to save

        def save(s):
            pdfme.build_pdf(_copy.deepcopy(d.doc), s, dict(d.context))
        for data in attempt(save, sc['faults'], log, measurer(save)):
            d.check(observe.View(data))
        s = world.Sink(None, log)
        save(s)
        v = observe.View(bytes(s.got))
    else:
        o = d.build()
        for data in attempt(o.output, sc['faults'], log, measurer(o.output)):
            d.check(observe.View(data))
        s = world.Sink(None, log)
        o.output(s)
        v = observe.View(bytes(s.got))
    got = observe.canon(v)
    fresh(log)
    d2 = docs.Doc(sc, core.Log())
    o = d2.build()
    s = world.Sink(None, log)
    o.output(s)
    diff = observe.difference(observe.canon(observe.View(bytes(s.got))), got)
    if diff:
        raise Violation('differs', 'after failed saves: %s' % diff)
    d.check(v)


DESCRIBE = {
    'rule': 'a run counts each save after failed ones that was read back and compared',
    'states': 'distinct (fault kind, place of the fault in 40ths of the save, fired, bytes taken '
              'before it) tuples',
    'real': docs.REAL, 'stubs': docs.STUBS + ['zlib.compress can fail'],
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right'],
}
