"""Every successful save is one complete, well-formed file."""
from .. import pdfread, program, session, world
from ..core import Violation, Invalid

ID = 'P01'
LEVEL = 'exploration'
RUNS = {'quick': 4000, 'thorough': 300000}
FROZEN = ('setup',)
TECHNIQUE = ('seeded histories of document operations and saves against a simulated destination '
             'that takes any number of bytes at a time; every save is read back by an independent '
             'strict reader and compared with a model of all that was put in')
LEVEL_NOTE = ('histories, contents and write sizes are sampled from one seed; the library is real, '
              'the destination, disk, clock and random source are simulated')

KINDS = ['str', 'ustr', 'int', 'neg', 'float', 'bool', 'name', 'hex', 'ref', 'list', 'tuple',
         'dict', 'set']


def generate(rng, tier, index):
    if rng.random() < 0.3:
        return {'setup': {}, 'base': gen_base(rng)}
    f = program.features(rng)
    f.update(bulk=0.08, many=0.12)
    return program.generate(rng, f)


def gen_value(rng, depth, nobj):
    k = rng.choice(KINDS if depth < 3 else KINDS[:9])
    if k == 'str':
        return ['s', gen_str(rng)]
    if k == 'ustr':
        return ['s', gen_str(rng) + rng.choice(['\u20ac', '\u0416(', '\u4e2d\\', '\U0001f600',
                                                '\u0128', '\u5c28', '\u0a0d'])]
    if k == 'int':
        return ['i', rng.choice([0, 1, 7, 1000000, 2**31 - 1])]
    if k == 'neg':
        return ['i', -rng.randint(0, 99999)]
    if k == 'float':
        return ['f', rng.choice([0.5, -0.25, 1e-7, -1e-9, 1e16, 1e22, 123456.789, 0.1, -0.0,
                                 1 / 3, 2.5e-5, 1e-320, 98765432109876543.0])]
    if k == 'bool':
        return ['b', rng.random() < 0.5]
    if k == 'name':
        return ['n', rng.choice(['Name', 'A', 'FlateDecode', 'x.y-z'])]
    if k == 'hex':
        return ['h', rng.choice(['00ff', 'dead beef', ''])]
    if k == 'ref':
        return ['r', rng.randint(0, 20)]
    if k == 'dict':
        return ['d', [[gen_key(rng, i), gen_value(rng, depth + 1, nobj)]
                      for i in range(rng.randint(0, 4))]]
    if k == 'set':
        return ['e', [gen_value(rng, 3, nobj) for _ in range(rng.randint(0, 4))]]
    return [{'list': 'l', 'tuple': 't'}[k],
            [gen_value(rng, depth + 1, nobj) for _ in range(rng.randint(0, 4))]]


def top_value(rng, refs=True):
    while True:
        v = gen_value(rng, 0, 0)
        if v[0] != 'r' and (refs or not has_ref(v)):
            return v


def has_ref(v):
    k, x = v
    if k == 'd':
        return any(has_ref(b) for _, b in x)
    return k == 'r' or k in ('l', 't', 'e') and any(has_ref(b) for b in x)


def gen_key(rng, i):
    return rng.choice(['Key', 'A', 'Type', 'Long-Key.name', 'K1']) + str(i)


def gen_str(rng):
    if rng.random() < 0.15:   # every byte
        return ''.join(map(chr, range(rng.choice([0, 32]), 256)))
    if rng.random() < 0.1:
        return '\xfe' + rng.choice(['', 'x', '(', '\\'])
    n = rng.choice([0, 1, 3, 10])
    return ''.join(rng.choice(['a', 'B', '(', ')', '\\', '\r', '\n', '\t', ' ', '%', '<', '>', '\xff',
                               '\x00', '/', '()', '\r\n', '\\)', '\\(', 'endobj', '\x80', '\b'])
                   for _ in range(n))


def gen_base(rng):
    ops = []
    for _ in range(rng.choice([1, 3, 8, 20])):
        r = rng.random()
        if r < 0.55:
            ops.append({'op': 'add', 'v': top_value(rng)})
        elif r < 0.75:
            ops.append({'op': 'stream', 'data': gen_str(rng), 'parts': rng.randint(0, 3),
                        'flate': rng.random() < 0.5, 'skip': rng.random() < 0.2,
                        'more': [[gen_key(rng, i), gen_value(rng, 2, 0)] for i in range(rng.randint(0, 2))]})
        elif r < 0.85:
            ops.append({'op': 'set', 'at': rng.randint(0, 20), 'v': top_value(rng)})
        elif r < 0.93:
            ops.append({'op': 'key', 'at': rng.randint(0, 20), 'key': gen_key(rng, 0),
                        'v': gen_value(rng, 1, 0)})
        else:
            ops.append({'op': 'save', 'plan': program.gen_plan(rng)})
    ops.append({'op': 'save', 'plan': program.gen_plan(rng)})
    return {'version': rng.choice(['1.5', '1.5', '1.7', '1.4']), 'ops': ops,
            'trailer': [['Extra', top_value(rng, False)]] if rng.random() < 0.3 else None}


def execute(sc, log):
    if 'base' in sc:
        return base_run(sc['base'], log)
    world.reset(1)
    world.disk.log = world.memory.log = log
    session.budget()
    c = program.Client(sc, log)
    for op in sc['ops']:
        c.do(op)
        log.state(op['op'], len(c.pages), c.saves, len(c.roots))
    v = c.final(sc.get('plan'))
    log.event([(w.t, w.page, round(w.x, 2), round(w.y, 2)) for w in v.words])
    # the very same bytes whatever the destination took at a time
    log.event(len(v.pages), len(v.pdf.objects))


# ------------------------------------------------------------ object level

class Obj:
    pass


def base_run(sc, log, fsave=None):
    from pdfme.base import PDFBase
    from pdfme.parser import PDFRef
    world.reset(1)
    trailer = None
    want_trailer = []
    vals = []      # expected
    n_save = 0

    def ref(i):
        if not vals:
            raise Invalid('ref')
        return i % len(vals) + 1

    def build(v):
        k, x = v
        if k in ('s', 'i', 'f', 'b'):
            return x
        if k == 'n':
            return b'/' + x.encode()
        if k == 'h':
            return b'<' + x.encode() + b'>'
        if k == 'r':
            return PDFRef(ref(x))
        if k == 'd':
            return {a: build(b) for a, b in x}
        if k == 'l':
            return [build(b) for b in x]
        if k == 't':
            return tuple(build(b) for b in x)
        if k == 'e':
            for b in x:
                if b[0] in ('d', 'l', 'e'):
                    raise Invalid('set')
            try:
                return set(build(b) for b in x)
            except TypeError:
                raise Invalid('set')
        raise Invalid('value')

    if sc.get('trailer'):
        for _, v in sc['trailer']:
            if has_ref(v):
                raise Invalid('trailer')
        trailer = {a: build(b) for a, b in sc['trailer']}
        want_trailer = [(a, fix(b, ref)) for a, b in sc['trailer']]
    base = PDFBase(sc['version'], trailer) if trailer is not None else PDFBase(sc['version'])
    root = base.add({'Type': b'/Catalog'})
    vals.append(('v', ['d', [['Type', ['n', 'Catalog']]]]))
    base.trailer['Root'] = root.id
    def check(data):
        pdf = pdfread.read_file(data)
        if not data.startswith(b'%PDF-' + sc['version'].encode()):
            raise Violation('version', 'the file is not of version %s' % sc['version'])
        if len(pdf.objects) != len(vals):
            raise Violation('objects', '%d objects were added, %d are in the file' % (
                len(vals), len(pdf.objects)))
        for i, want in enumerate(vals):
            same(want, pdf.objects[i + 1], 'object %d' % (i + 1))
        for a, b in want_trailer:
            same(('v', b), pdf.trailer.get(a), 'trailer %s' % a)
        if pdf.trailer.get('Root') != 1:
            raise Violation('trailer', 'Root is %r' % (pdf.trailer.get('Root'),))
        log.n('evaluations')
        log.n('objects', len(vals))
        log.state('base', len(vals), [w[1][0] for w in vals[-3:]], len(data) // 64)
        log.event(len(data))

    for op in sc['ops']:
        log.n('steps')
        log.n('base:' + op['op'])
        k = op['op']
        if k == 'add':
            v = build(op['v'])
            if isinstance(v, PDFRef):
                raise Invalid('bare reference')
            o = base.add(v)
            vals.append(('v', fix(op['v'], ref)))
            if o.id != len(vals) or len(base) != len(vals) or base[len(vals)] is not o:
                raise Violation('object-number', 'object %d got number %r' % (len(vals), o.id))
        elif k == 'stream':
            data = op['data'].encode('latin')
            n = op['parts']
            st = {i: data[i::n] for i in range(n)} if n else data
            body = b''.join(st.values()) if n else data
            d = {a: build(b) for a, b in op['more']}
            if op['flate']:
                d['Filter'] = b'/FlateDecode'
                if op['skip']:
                    d['__skip_filter__'] = True
            d['__stream__'] = st
            base.add(d)
            vals.append(('stream', fix(['d', op['more']], ref), body,
                         op['flate'], op['flate'] and op['skip']))
        elif k == 'set':
            i = ref(op['at'])
            if i == 1:
                continue
            v = build(op['v'])
            if isinstance(v, PDFRef):
                raise Invalid('bare reference')
            from pdfme.parser import PDFObject
            base[i] = PDFObject(PDFRef(i), v)
            vals[i - 1] = ('v', fix(op['v'], ref))
        elif k == 'key':
            i = ref(op['at'])
            if vals[i - 1][0] != 'v' or vals[i - 1][1][0] != 'd' or i == 1:
                continue
            base[i][op['key']] = build(op['v'])
            d = [x for x in vals[i - 1][1][1] if x[0] != op['key']]
            vals[i - 1] = ('v', ['d', d + [[op['key'], fix(op['v'], ref)]]])
        elif k == 'save':
            n_save += 1
            s = world.Sink(op.get('plan'), log)
            base.output(s)
            check(bytes(s.got))
        elif k == 'fsave' and fsave:
            fsave(base, op, check)
        else:
            raise Invalid('op')


def fix(v, ref):
    k, x = v
    if k == 'r':
        return ['R', ref(x)]
    if k == 'd':
        return [k, [[a, fix(b, ref)] for a, b in x]]
    if k in ('l', 't', 'e'):
        return [k, [fix(b, ref) for b in x]]
    return v


def same(want, got, where):
    if want[0] == 'stream':
        _, d, body, flate, skip = want
        if not isinstance(got, pdfread.Stream):
            raise Violation('value', '%s is %r, it was a stream' % (where, got))
        data = got.raw if skip or not flate else got.data()
        if data != body:
            raise Violation('value', '%s: its stream is %r, it was %r' % (
                where, data[:80], body[:80]))
        dic = {k: v for k, v in got.dic.items() if k not in ('Length', 'Filter')}
        if flate and got.dic.get('Filter') != 'FlateDecode':
            raise Violation('value', '%s: its filter is %r' % (where, got.dic.get('Filter')))
        same_value(d, dic, where)
        return
    same_value(want[1], got, where)


def same_value(v, got, where):
    k, x = v
    ok = True
    if k == 's':
        try:
            ok = got == x.encode('latin') and isinstance(got, bytes)
        except UnicodeEncodeError:
            ok = isinstance(got, bytes) and pdfread.decode_text(got) == x
    elif k == 'i':
        ok = type(got) is int and got == x
    elif k == 'f':
        ok = isinstance(got, (int, float)) and not isinstance(got, bool) and \
            abs(got - x) <= 1e-9 * max(1, abs(x))
    elif k == 'b':
        ok = got is x
    elif k == 'n':
        ok = isinstance(got, pdfread.Name) and got == x
    elif k == 'h':
        ok = isinstance(got, bytes) and got == bytes.fromhex(x.replace(' ', ''))
    elif k == 'R':
        ok = isinstance(got, pdfread.Ref) and got == x
    elif k == 'd':
        if not isinstance(got, dict) or set(got) != {a for a, _ in x}:
            raise Violation('value', '%s is %r, it was a dictionary of %r' % (
                where, got, [a for a, _ in x]))
        for a, b in dict((a, (a, b)) for a, b in x).values():
            same_value(b, got[a], where + ' ' + a)
    elif k in ('l', 't'):
        if not isinstance(got, list) or len(got) != len(x):
            raise Violation('value', '%s is %r, it was a list of %d' % (where, got, len(x)))
        for i, (a, b) in enumerate(zip(x, got)):
            same_value(a, b, '%s[%d]' % (where, i))
    elif k == 'e':
        ok = isinstance(got, list) and len(got) <= len(x) and bool(got) == bool(x)
    if not ok:
        raise Violation('value', '%s is %r in the file, it was %r' % (where, got, x))


DESCRIBE = {
    'rule': 'a run counts each save that was read back and compared with the model of all '
            'that was put in until then',
    'states': 'distinct (operation, pages, saves, elements) tuples of document histories, and '
              '(objects, last kinds, file size / 64) tuples of object-level histories',
    'real': program.REAL, 'stubs': program.STUBS,
    'assumptions': ['the PDF reader in /verif/sim/pdfread.py is right',
                    'strings starting with the characters \\xfe\\xff are not used: PDF itself reads '
                    'them as UTF-16'],
}
