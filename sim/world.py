"""The simulated environment: random source, clock, disk, output sinks,
memory, interrupts. Everything here is decided by the scenario.

Seams (all in place before any scenario runs, none needs a change in /repo):
  os.urandom (source of uuid4)          -> seeded PRNG
  time.time / time.time_ns              -> simulated clock
  open / io.open under /simdisk         -> in-memory disk with read faults
  zlib.compress                         -> can be told to fail like a full heap
  the object handed to output()         -> Sink: short writes, errors, full disk
  line events of pdfme frames           -> an interrupt lands on the n-th line
"""
import builtins
import errno
import io
import linecache
import os
import random
import re
import sys
import time
import zlib

from .core import REPO

PKG = os.path.join(REPO, 'pdfme') + os.sep

_real_open = builtins.open
_real_compress = zlib.compress
_real_time = time.time
DISK = '/simdisk/'

rnd = random.Random(0)
clock = [1_700_000_000.0]


jumps = []
readings = [0]


def now():
    """A reading of the clock, which may jump."""
    readings[0] += 1
    if jumps:
        clock[0] += jumps[readings[0] % len(jumps)]
    return clock[0]


def from_pkg(depth=2):
    return sys._getframe(depth).f_code.co_filename.startswith(PKG)


def clocks():
    """All ways to ask for the time lead to the simulated clock."""
    import datetime
    time.time = now
    time.time_ns = lambda: int(now() * 1e9)
    for name in ('monotonic', 'perf_counter', 'process_time'):
        real = getattr(time, name)
        setattr(time, name, lambda real=real: now() if from_pkg() else real())
        real_ns = getattr(time, name + '_ns')
        setattr(time, name + '_ns',
                lambda real=real_ns: int(now() * 1e9) if from_pkg() else real())
    for name in ('localtime', 'gmtime', 'ctime'):
        real = getattr(time, name)
        setattr(time, name, lambda s=None, real=real: real(now() if s is None else s))
    real_str, real_asc, local = time.strftime, time.asctime, time.localtime
    time.strftime = lambda f, t=None: real_str(f, local() if t is None else t)
    time.asctime = lambda t=None: real_asc(local() if t is None else t)

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(now(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(now(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())

    class Date(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(now())
    datetime.datetime = DateTime
    datetime.date = Date


def install():
    os.urandom = lambda n: rnd.getrandbits(8 * n).to_bytes(n, 'big') if n else b''
    import uuid
    uuid._generate_time_safe = None
    builtins.open = sim_open
    io.open = sim_open
    zlib.compress = sim_compress


def reset(seed, now=1_700_000_000.0):
    rnd.seed(seed)
    clock[0] = now
    jumps[:] = []
    readings[0] = 0
    random.seed(seed)
    logs = disk.log, memory.log
    disk.__init__()
    memory.__init__()
    disk.log, memory.log = logs


# ------------------------------------------------------------------ disk

class Disk:
    """files: path -> bytes. plan: path -> list, one entry per open()."""

    def __init__(self):
        self.files = {}
        self.plan = {}
        self.log = None
        self.handles = []
        self.opens = 0
        self.reads = 0

    def next_fault(self, path):
        q = self.plan.get(path)
        return q.pop(0) if q else None

    def still_open(self):
        return [h.path for h in self.handles if not h.closed]


disk = Disk()


class Raw(io.RawIOBase):
    """A file of the simulated disk, with at most one planned fault."""

    def __init__(self, path, data, fault):
        self.path = path
        self.data = data
        self.pos = 0
        self.fault = fault or {}
        self.n = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        f = self.fault
        if f.get('kind') == 'seek-error':
            disk.log.fault('disk:seek-error')
            raise OSError(errno.EIO, 'simulated seek error', self.path)
        self.pos = (off if whence == 0 else
                    self.pos + off if whence == 1 else len(self.data) + off)
        return self.pos

    def readinto(self, b):
        f = self.fault
        k = f.get('kind')
        self.n += 1
        disk.reads += 1
        want = len(b)
        if k == 'eio' and self.n > f.get('at', 0):
            disk.log.fault('disk:eio')
            raise OSError(errno.EIO, 'simulated read error', self.path)
        if k == 'short' and want > 1:
            want = min(want, max(1, f.get('at', 1)))
            disk.log.fault('disk:short-read')
        if k == 'nomem' and self.n > f.get('at', 0):
            disk.log.fault('disk:nomem')
            raise MemoryError('simulated')
        if k == 'eintr' and self.n > f.get('at', 0):
            disk.log.fault('disk:interrupt')
            self.fault = {}
            raise KeyboardInterrupt()
        chunk = self.data[self.pos:self.pos + want]
        b[:len(chunk)] = chunk
        self.pos += len(chunk)
        return len(chunk)


OPEN_ERRORS = {'enoent': errno.ENOENT, 'eacces': errno.EACCES, 'emfile': errno.EMFILE}


def sim_open(file, mode='r', *a, **k):
    try:
        path = os.fspath(file) if not isinstance(file, int) else None
    except TypeError:
        path = None
    if not isinstance(path, str) or not path.startswith(DISK):
        return _real_open(file, mode, *a, **k)
    disk.opens += 1
    if 'w' in mode or 'a' in mode or '+' in mode or 'x' in mode:
        raise PermissionError(errno.EROFS, 'the simulated disk is read-only', path)
    fault = disk.next_fault(path)
    kind = (fault or {}).get('kind')
    if kind in OPEN_ERRORS:
        disk.log.fault('disk:' + kind)
        raise OSError(OPEN_ERRORS[kind], os.strerror(OPEN_ERRORS[kind]), path)
    if path not in disk.files:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
    data = disk.files[path]
    if kind == 'truncate':  # a torn copy of the file: its tail is missing
        disk.log.fault('disk:truncated')
        data = data[:int(len(data) * fault.get('part', 0.5))]
    elif kind == 'garbage':
        disk.log.fault('disk:garbage')
        data = bytes((x * 7 + 13) & 255 for x in data[:64]) + data[64:]
    elif kind == 'empty':
        disk.log.fault('disk:empty')
        data = b''
    raw = Raw(path, data, fault)
    disk.handles.append(raw)
    if 'b' not in mode:
        return io.TextIOWrapper(io.BufferedReader(raw))
    size = (fault or {}).get('buf', 8192)
    return io.BufferedReader(raw, max(1, size))


# ---------------------------------------------------------------- memory

class Memory:
    def __init__(self):
        self.n = 0
        self.fail = None
        self.log = None


memory = Memory()


def sim_compress(*a, **k):
    memory.n += 1
    if memory.fail is not None and memory.n == memory.fail:
        memory.log.fault('memory:compress')
        raise MemoryError('simulated')
    return _real_compress(*a, **k)


# ----------------------------------------------------------------- sinks

class SinkError(OSError):
    pass


class Sink(io.RawIOBase):
    """plan: {'kind': 'full'|'short'|'none'|'error'|'disk-full'|'interrupt', ...}"""

    def __init__(self, plan, log):
        self.plan = plan or {'kind': 'full'}
        self.log = log
        self.got = bytearray()
        self.writes = 0
        self.rnd = random.Random(self.plan.get('seed', 0))
        self.failed = False

    def writable(self):
        return True

    def write(self, data):
        data = bytes(data)
        p = self.plan
        k = p['kind']
        self.writes += 1
        self.log.n('steps')
        if k in ('error', 'interrupt', 'memory') and self.writes > p.get('at', 0):
            self.got += data[:int(len(data) * p.get('part', 0))]
            self.failed = True
            self.log.fault('sink:' + k)
            if k == 'interrupt':
                raise KeyboardInterrupt()
            if k == 'memory':
                raise MemoryError('simulated')
            raise SinkError(p.get('errno', errno.EIO), 'simulated write error')
        if k == 'disk-full' and len(self.got) + len(data) > p.get('room', 0):
            self.got += data[:max(0, p.get('room', 0) - len(self.got))]
            self.failed = True
            self.log.fault('sink:disk-full')
            raise SinkError(errno.ENOSPC, 'simulated full disk')
        if k == 'short' and len(data) > 1:
            n = self.rnd.choice([1, len(data), len(data), max(1, len(data) // 2),
                                 self.rnd.randint(1, len(data))])
            if p.get('max'):
                n = min(n, max(1, p['max']))
            if n < len(data):
                self.log.fault('sink:short-write')
            self.got += data[:n]
            return n
        if k == 'none':
            self.got += data
            return None
        self.got += data
        return len(data)


SINK_ERRORS = (SinkError, MemoryError, KeyboardInterrupt)


# ------------------------------------------------------------ interrupts

class Interrupted(BaseException):
    """Stands for KeyboardInterrupt / SystemExit landing on a line."""


def interrupt_at(n, fn, log, exc=KeyboardInterrupt, only=None):
    """fn() with exc raised at the n-th line executed inside pdfme (0-based).
    -> (fired, outcome, value): outcome 'done' or 'raised'"""
    left = [n]
    fired = [False]

    def local(frame, event, arg):
        if event == 'line':
            if left[0] <= 0 and not fired[0]:
                fired[0] = True
                log.fault('interrupt:line')
                raise exc()
            left[0] -= 1
        return local

    def tracer(frame, event, arg):
        if fired[0]:
            return None
        if frame.f_code.co_filename.startswith(PKG):
            return local
        return None
    sys.settrace(tracer)
    try:
        v = fn()
        return fired[0], 'done', v
    except (Exception, exc) as e:   # the library may have made another error of it
        if not fired[0]:
            raise
        return True, 'raised', e
    finally:
        sys.settrace(None)


def count_lines(fn):
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    sys.settrace(tracer)
    try:
        return fn(), n[0]
    finally:
        sys.settrace(None)


# lines that change something that was there before
WRITE = re.compile(r'(\]|\.\w+) ([-+*/]?=) |\.(append|add|pop|update|extend|setdefault)\(')


def line_map(fn):
    """Which source lines of pdfme fn() runs, and when. What fn() raises does
    not matter here."""
    seen = {}
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            i = n[0]
            n[0] = i + 1
            k = (frame.f_code.co_filename[len(PKG):], frame.f_lineno)
            e = seen.get(k)
            if e is None:
                seen[k] = [1, i]
            else:
                e[0] += 1
                if e[0] & (e[0] - 1) == 0:
                    e.append(i)
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(PKG) else None
    sys.settrace(tracer)
    try:
        fn()
    except (Exception, KeyboardInterrupt, SystemExit):
        pass
    finally:
        sys.settrace(None)
    out = {'n': n[0], 'places': sorted(e[1:] for e in seen.values())}
    out['writes'] = sorted(e[1:] for k, e in seen.items()
                           if WRITE.search(linecache.getline(PKG + k[0], k[1])))
    return out


def pick_line(f, m):
    """The line of a plan {'u': 0..1, 'by': 'time'|'place'|'write'} in a line
    map: any moment, or any place of the source with the same chance, or any
    that looks as if it changed something."""
    if not m['n']:
        return None
    places = m['writes'] if f.get('by') == 'write' and m['writes'] else m['places']
    if f.get('by') in ('place', 'write'):
        u = f['u'] * len(places)
        p = places[int(u) % len(places)]
        return p[int((u - int(u)) * len(p)) % len(p)]
    return int(f['u'] * m['n']) % m['n']


def spoil_line(fn, f, log, exc=KeyboardInterrupt):
    """fn() interrupted where the plan says; how long it is was found out in a
    process of its own. -> (fired, 'done' or 'raised')"""
    from . import core
    m = core.child(lambda: line_map(fn), 60)
    at = pick_line(f, m) if m and 'n' in m else None
    if at is None:
        fn()
        return False, 'done'
    return interrupt_at(at, fn, log, exc)[:2]
