"""The same program gives the same document in every process."""
import atexit
import base64
import hashlib
import json
import os
import random
import re
import signal
import socket
import struct
import subprocess
import sys
import time

from .. import core, docs, observe, program, session, stage, world
from ..core import Invalid, Violation

ID = 'P12'
LEVEL = 'exploration'
RUNS = {'quick': 1400, 'thorough': 150000}
FROZEN = ()
TECHNIQUE = ('the same seeded documents are built in processes with different hash seeds, time '
             'zones, clocks that jump at every reading, earlier documents (also failed ones), '
             'registered fonts and ways to write the file; the saved bytes are compared, and one '
             'of the documents with its description')
LEVEL_NOTE = ('documents, histories and clocks are sampled from one seed; every worker is a real '
              'process with its own hash seed, forked for each run from a server; the library is '
              'real, the destination, disk, clock and random source are simulated')

# hash seed, time zone, locale
HOSTS = [('1', 'UTC', 'C'), ('2', 'Asia/Tokyo', 'C.UTF-8'), ('77', 'America/Caracas', 'C'),
         ('4000000000', 'Europe/Berlin', 'POSIX')]


# ------------------------------------------------------------- generators

def gen_doc(rng, k):
    if rng.random() < 0.65:
        f = docs.features(rng)
        f.update(long=rng.choice([5, 12]), elems=[1, 2, 3], rows=[1, 2, 3],
                 mark=rng.choice([0, 0.3]), notes_rate=rng.choice([0, 0.3]),
                 runs_n=rng.choice([0, 2, 3, 4]), ranges=rng.choice([0, 1]), many=0)
        j = docs.generate(rng, f)
        j['kind'] = 'document'
    else:
        f = program.features(rng)
        f.update(long=rng.choice([5, 12]), elems=[1, 2, 3], rows=[1, 2, 3], style=0.7)
        j = program.generate(rng, f, [(a, b) for a, b in program.MIX if a != 'save'],
                             rng.choice([1, 3, 6]))
        j['kind'] = 'program'
        if rng.random() < 0.3:
            j['ttf'] = ['Open', 'Other'][:rng.choice([1, 2])]
            for op in j['ops']:
                if op['op'] == 'text' and rng.random() < 0.7:
                    op['desc'] = {'.': [op['desc'] if isinstance(op['desc'], (dict, str))
                                        else {'.': op['desc']}],
                                  'style': {'f': rng.choice(j['ttf']),
                                            'b': rng.random() < 0.5}}
                    if op['args'].get('text_align') == 'j':
                        op['args']['text_align'] = 'l'
    return json.loads(json.dumps(j).replace('/simdisk/img', '/simdisk/d%d_' % k))


def gen_host(rng, n):
    h = {'host': rng.randint(0, len(HOSTS) - 1), 'order': list(range(n)),
         'clock': rng.choice([0, 1_000_000, 1_700_000_000, 1_709_164_799.5, 4_000_000_000]),
         'jumps': rng.choice([[], [1], [0.001, 86400], [3600, -7200, 1], [-1]]),
         'rand': rng.randint(0, 10**6), 'before': [], 'plans': []}
    rng.shuffle(h['order'])
    for _ in range(rng.choice([0, 0, 1, 2])):
        r = rng.random()
        if r < 0.3:
            b = {'kind': 'register', 'families': rng.choice([['Noise'], ['Noise', 'More']])}
        else:
            b = {'kind': 'document', 'again': rng.randint(0, n - 1)}
            if rng.random() < 0.5:
                b['fault'] = rng.choice([{'kind': 'line', 'at': rng.randint(0, 20000)},
                                         {'kind': 'sink', 'at': rng.randint(0, 60)}])
        h['before'].append(b)
    for _ in range(n):
        h['plans'].append(rng.choice([None, {'kind': 'short', 'seed': rng.randint(0, 10**6)},
                                      {'kind': 'full'}]))
    return h


def generate(rng, tier, index):
    n = rng.choice([1, 1, 2, 3])
    sc = {'docs': [gen_doc(rng, k) for k in range(n)]}
    sc['hosts'] = [gen_host(rng, n), gen_host(rng, n)]
    while sc['hosts'][1]['host'] == sc['hosts'][0]['host']:
        sc['hosts'][1]['host'] = rng.randint(0, len(HOSTS) - 1)
    sc['check'] = rng.random() < 0.3
    return sc


# ----------------------------------------------------------------- workers

def job(m):
    """What a worker does: {'docs', 'host', 'check', 'full'} -> a result"""
    log = core.Log()
    world.disk.log = world.memory.log = log
    session.budget()
    h = m['host']
    out = {}
    for b in h['before']:
        world.reset(99)
        try:
            if b['kind'] == 'register':
                session.ttf_setup(b['families'])
                continue
            j = m['docs'][b['again'] % len(m['docs'])]
            f = b.get('fault') or {}
            plan = {'kind': 'error', 'at': f['at']} if f.get('kind') == 'sink' else None
            if f.get('kind') == 'line':
                world.interrupt_at(f['at'], lambda: make(j, log, plan), log)
            else:
                make(j, log, plan)
        except (Exception, KeyboardInterrupt):
            pass
    for i in h['order']:
        i %= len(m['docs'])
        j = m['docs'][i]
        world.reset(12 + i, h['clock'])
        world.jumps[:] = h['jumps']
        random.seed(h['rand'])
        plan = h['plans'][i % len(h['plans'])] if h['plans'] else None
        try:
            data = make(j, log, plan, m.get('check'))
        except Invalid as e:
            return {'invalid': str(e)}
        except Violation as e:
            return {'violation': [e.kind, e.msg]}
        except Exception as e:
            out[i] = {'error': type(e).__name__, 'msg': str(e)[:200]}
            continue
        data = UUID.sub(b'-uuid-', data)
        out[i] = {'hash': hashlib.sha256(data).hexdigest()}
        if m.get('full'):
            out[i]['data'] = base64.b64encode(data).decode()
    return {'out': out, 'clock': [world.clock[0], world.readings[0]],
            'faults': dict(log.faults), 'c': dict(log.c)}


UUID = re.compile(rb'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')


def make(j, log, plan, check=False):
    """-> bytes of the document"""
    images = stage.load_images(j.get('images', {}))
    s = world.Sink(plan, log)
    if j['kind'] == 'document':
        d = docs.Doc(j, log, images)
        d.build().output(s)
        if check:
            d.check(observe.View(bytes(s.got)))
        return bytes(s.got)
    c = program.Client(j, log, images=images)
    for op in j['ops']:
        c.do(op)
    if not c.pages:
        c.op_add_page({'op': 'add_page'}, lambda fn: fn())
    c.pdf.output(s)
    if check:
        c.check(bytes(s.got))
    return bytes(s.got)


def receive(s):
    def exactly(n):
        b = b''
        while len(b) < n:
            x = s.recv(min(1 << 20, n - len(b)))
            if not x:
                raise EOFError()
            b += x
        return b
    n, = struct.unpack('<I', exactly(4))
    return json.loads(exactly(n))


def send(s, v):
    b = json.dumps(v).encode()
    s.sendall(struct.pack('<I', len(b)) + b)


def serve(name):
    """A worker: one forked process for every job, until stdin is closed."""
    import select
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind('\0' + name)
    srv.listen(64)
    print('serving', flush=True)
    while True:
        ready = select.select([srv, 0], [], [])[0]
        if 0 in ready and not os.read(0, 1):
            return 0
        if srv not in ready:
            continue
        c = srv.accept()[0]
        if os.fork():
            c.close()
            continue
        try:
            srv.close()
            signal.signal(signal.SIGINT, signal.default_int_handler)
            signal.alarm(50)    # (the client gives up as well)
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            try:
                res = job(receive(c))
            except BaseException as e:
                import traceback
                res = {'harness': traceback.format_exc()[-1500:], 'type': type(e).__name__}
            send(c, res)
        finally:
            os._exit(0)


servers = []


def prepare():
    if servers:
        return
    run = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'run.py')
    for k, (seed, tz, lang) in enumerate(HOSTS):
        name = 'pdfme-sim-%d-%d-%s' % (os.getpid(), k, base64.b16encode(
            open('/dev/urandom', 'rb').read(4)).decode())
        env = dict(os.environ, VERIF_HASHSEED=seed, PYTHONHASHSEED=seed, TZ=tz, LC_ALL=lang)
        p = subprocess.Popen([sys.executable, run, 'serve', 'P12', name], env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        servers.append((p, name))
    for p, name in servers:
        if p.stdout.readline().strip() != b'serving':
            raise RuntimeError('a worker did not start')
    me = os.getpid()

    def close():
        if os.getpid() == me:
            for p, _ in servers:
                p.kill()
                p.wait()
    atexit.register(close)


def ask(k, m):
    prepare()
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(60)
    try:
        for n in range(50):
            try:
                s.connect('\0' + servers[k % len(servers)][1])
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.05)
        send(s, m)
        return receive(s)
    except (EOFError, socket.timeout):
        raise Invalid('a worker took too long')
    finally:
        s.close()


def execute(sc, log):
    if not sc.get('docs') or len(sc.get('hosts', ())) != 2:
        raise Invalid('documents')
    n = len(sc['docs'])
    got = []
    for k, h in enumerate(sc['hosts']):
        if sorted(x % n for x in h['order']) != list(range(n)):
            raise Invalid('order')
        m = {'docs': sc['docs'], 'host': h, 'check': bool(sc.get('check')) and k == 1}
        r = ask(h['host'], m)
        if 'invalid' in r:
            raise Invalid(r['invalid'])
        if 'violation' in r:
            raise Violation(r['violation'][0], 'hash seed %s: %s' % (
                HOSTS[h['host'] % len(HOSTS)][0], r['violation'][1]))
        if 'harness' in r:
            raise RuntimeError(r['harness'])
        for f, c in r['faults'].items():
            log.fault(f, c)
        log.n('documents', len(r['out']))
        log.n('clock readings', r['clock'][1])
        got.append((m, r['out']))
    for j in h['jumps']:
        log.fault('clock:jump')
    for i in range(n):
        a, b = got[0][1][str(i)], got[1][1][str(i)]
        log.state(sc['docs'][i]['kind'], a.get('error'), a.get('hash', '')[:2])
        log.n('comparisons')
        if a == b:
            continue
        if 'error' in a or 'error' in b:
            if a.get('error') == b.get('error'):
                continue
            raise Violation('differs', 'document %d: %s in one process, %s in the other' % (
                i + 1, *('fails with ' + x['error'] + ': ' + x['msg'] if 'error' in x
                         else 'is made' for x in (a, b))))
        full = [base64.b64decode(ask(m['host']['host'], dict(m, full=True))['out'][str(i)]['data'])
                for m, _ in got]
        raise Violation('differs', 'document %d is not the same file in two processes (hash seeds '
                        '%s): %s' % (i + 1, ', '.join(HOSTS[m['host']['host'] % len(HOSTS)][0]
                                                      for m, _ in got), explain(*full)))
    log.n('evaluations')


def explain(a, b):
    if a == b:
        return 'but the same again'
    k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    try:
        d = observe.difference(*(observe.canon(observe.View(x)) for x in (a, b)))
    except Exception:
        d = None
    return '%s; byte %d: %r or %r' % (d or 'it looks the same', k, a[max(0, k - 20):k + 20],
                                      b[max(0, k - 20):k + 20])


DESCRIBE = {
    'rule': 'a run counts once the bytes of all its documents from two processes were compared',
    'states': 'distinct (kind of document, error, first digits of its hash) tuples',
    'real': program.REAL + ['pdfme.document', 'hash seeds of the interpreter', 'time zones'],
    'stubs': program.STUBS,
    'assumptions': ['identifiers that look like a UUID are meant to be random',
                    'os.urandom gives the same bytes in both processes'],
}
