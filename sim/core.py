"""Runner of the simulations: seeds, worker processes, shrinking, replay,
evidence.

A property module offers

    ID, TITLE         its id and a short name
    RUNS              {'quick': n, 'thorough': n}: number of simulated runs
    generate(rng, tier, index) -> scenario   a JSON value; the whole run
    execute(scenario, log)   runs it against /repo; raises Violation
    describe          text for the evidence file

A scenario is plain data: every choice (operations, schedule, faults) is in it,
drawn from one PRNG. execute() is a pure function of the scenario and of the
code in /repo. Every run happens in a forked child of its own, so no run can
leave anything behind for another one.
"""
import collections
import faulthandler
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, msg):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class Invalid(Exception):
    """The scenario means nothing (the shrinker made it)."""


class Log:
    """What a run did; never consulted by the code under test."""

    def __init__(self):
        self.c = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.trace = []

    def n(self, key, k=1):
        self.c[key] += k

    def fault(self, kind, k=1):
        self.faults[kind] += k

    def state(self, *what):
        self.states.add(hashlib.blake2b(repr(what).encode(), digest_size=6).hexdigest())

    def event(self, *what):
        self.trace.append(repr(what))

    def digest(self):
        h = hashlib.blake2b(digest_size=16)
        for t in self.trace:
            h.update(t.encode() + b'\n')
        h.update(repr(sorted(self.c.items())).encode())
        h.update(repr(sorted(self.faults.items())).encode())
        h.update(repr(sorted(self.states)).encode())
        return h.hexdigest()


def run_seed(seed, prop, index):
    h = hashlib.blake2b(('%s/%s/%s' % (seed, prop, index)).encode(), digest_size=8)
    return int.from_bytes(h.digest(), 'big')


def in_repo(tb):
    pk = os.path.join(REPO, 'pdfme') + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pk):
            return True
        tb = tb.tb_next
    return False


def short_tb(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        out.append('%s:%d:%s' % (os.path.basename(f.filename), f.lineno, f.name))
    return ' < '.join(reversed(out[-6:]))


def run_one(mod, scenario):
    """-> result dict. Only ever called in a child of its own."""
    from . import pdfread
    log = Log()
    res = {'outcome': 'ok'}
    try:
        mod.execute(scenario, log)
    except Violation as v:
        res = {'outcome': 'violation', 'kind': v.kind, 'msg': v.msg}
    except Invalid as e:
        res = {'outcome': 'invalid', 'msg': str(e)}
    except pdfread.PdfError as e:
        res = {'outcome': 'violation', 'kind': 'malformed', 'msg': 'malformed output: %s' % e}
    except RecursionError as e:
        res = {'outcome': 'violation' if in_repo(e.__traceback__) else 'error',
               'kind': 'unexpected-error', 'msg': 'RecursionError ' + short_tb(e)}
    except Exception as e:
        # an exception that left the library where the scenario expected none
        if in_repo(e.__traceback__):
            res = {'outcome': 'violation', 'kind': 'unexpected-' + type(e).__name__,
                   'msg': 'unexpected %s: %s [%s]' % (type(e).__name__, e, short_tb(e))}
        else:
            res = {'outcome': 'error', 'msg': traceback.format_exc()}
    res['c'] = dict(log.c)
    res['faults'] = dict(log.faults)
    res['states'] = sorted(log.states)
    res['digest'] = log.digest()
    return res


HARD_LIMIT = 60.0       # wall seconds for one run before it is stepped
STEP_LIMIT = 6_000_000  # loop and call steps a run may take when stepped


class Steps(BaseException):
    pass


def with_step_budget(fn, limit=STEP_LIMIT):
    """fn() under a deterministic budget of calls and jumps."""
    mon = sys.monitoring
    E = mon.events
    left = [limit]

    def tick(*a):
        left[0] -= 1
        if left[0] < 0:
            raise Steps()
    mon.use_tool_id(3, 'steps')
    mon.register_callback(3, E.JUMP, tick)
    mon.register_callback(3, E.PY_START, tick)
    mon.set_events(3, E.JUMP | E.PY_START)
    try:
        return fn(), limit - left[0]
    finally:
        mon.set_events(3, 0)
        mon.free_tool_id(3)


def child(fn, timeout):
    """Run fn() in a forked child -> its result, None when time ran out."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(dn, 2)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 3
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    ok = True
    while True:
        left = end - time.monotonic()
        if left <= 0:
            ok = False
            break
        if not select.select([r], [], [], left)[0]:
            ok = False
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if not ok:
        return None
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'outcome': 'error', 'msg': 'the run died with status %r' % status,
                'c': {}, 'faults': {}, 'states': [], 'digest': ''}


def simulate(mod, scenario):
    """One run in its own process, stepped when it does not end."""
    res = child(lambda: run_one(mod, scenario), HARD_LIMIT)
    if res is not None:
        return res

    def stepped():
        try:
            return with_step_budget(lambda: run_one(mod, scenario))[0]
        except Steps:
            return {'outcome': 'violation', 'kind': 'endless',
                    'msg': 'not finished after %d steps' % STEP_LIMIT,
                    'c': {}, 'faults': {}, 'states': [], 'digest': 'endless'}
    res = child(stepped, 5 * HARD_LIMIT)
    if res is None:
        return {'outcome': 'error', 'msg': 'run not finished in %d s' % (6 * HARD_LIMIT),
                'c': {}, 'faults': {}, 'states': [], 'digest': ''}
    return res


def scenario_for(mod, seed, tier, index):
    rng = random.Random(run_seed(seed, mod.ID, index))
    sc = mod.generate(rng, tier, index)
    return json.loads(json.dumps(sc))


# ---------------------------------------------------------------- workers

def worker(k, n, mod, seed, tier, runs, stop_w, out, deadline):
    for i in range(k, runs, n):
        if i > stop_w():
            break
        if time.monotonic() > deadline:
            out({'i': i, 'outcome': 'deadline'})
            break
        sc = scenario_for(mod, seed, tier, i)
        res = simulate(mod, sc)
        res['i'] = i
        out(res)


def run_pool(mod, seed, tier, runs, jobs, deadline, on_result):
    import mmap
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack('<q', runs)
    pipes = []
    pids = []
    for k in range(jobs):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                f = os.fdopen(w, 'wb')

                def out(x):
                    b = pickle.dumps(x)
                    f.write(struct.pack('<I', len(b)) + b)
                    f.flush()
                worker(k, jobs, mod, seed, tier, runs,
                       lambda: struct.unpack('<q', shared[:8])[0], out, deadline)
                f.close()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        pipes.append(r)
        pids.append(pid)
    bufs = {r: b'' for r in pipes}
    live = set(pipes)
    while live:
        for r in select.select(list(live), [], [])[0]:
            b = os.read(r, 1 << 16)
            if not b:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 4:
                n, = struct.unpack('<I', bufs[r][:4])
                if len(bufs[r]) < 4 + n:
                    break
                res = pickle.loads(bufs[r][4:4 + n])
                bufs[r] = bufs[r][4 + n:]
                if on_result(res):  # stop: nothing after this index matters
                    cur = struct.unpack('<q', shared[:8])[0]
                    shared[:8] = struct.pack('<q', min(cur, res['i']))
    bad = 0
    for pid in pids:
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    return bad


# ---------------------------------------------------------------- shrinking

def paths(v, at=()):
    """Places in a scenario that can be made smaller, biggest first."""
    yield at
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, at + (i,))
    elif isinstance(v, dict):
        for k, x in v.items():
            yield from paths(x, at + (k,))


def get(v, at):
    for k in at:
        v = v[k]
    return v


def put(v, at, new):
    v = json.loads(json.dumps(v))
    if not at:
        return new
    get(v, at[:-1])[at[-1]] = new
    return v


def drop(v, at, keys):
    v = json.loads(json.dumps(v))
    c = get(v, at)
    if isinstance(c, list):
        for k in sorted(keys, reverse=True):
            del c[k]
    else:
        for k in keys:
            del c[k]
    return v


def candidates(v, at):
    c = get(v, at)
    if isinstance(c, list) and c:
        n = len(c)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                yield drop(v, at, list(range(s, min(n, s + size))))
            size //= 2
    elif isinstance(c, dict):
        for k in list(c):
            yield drop(v, at, [k])
        for k, x in c.items():  # a nested element in place of its container
            if isinstance(x, list) and len(x) == 1 and isinstance(x[0], (dict, str)):
                yield put(v, at, x[0])
    elif isinstance(c, str) and len(c) > 1 and not (at and at[-1] in ('op', 'k', 'kind')):
        if ' ' in c:
            ws = c.split(' ')
            size = len(ws)
            while size >= 1:
                for s in range(0, len(ws), size):
                    yield put(v, at, ' '.join(ws[:s] + ws[s + size:]))
                size //= 2
    elif isinstance(c, bool):
        if c:
            yield put(v, at, False)
    elif isinstance(c, int):
        for x in (0, 1, c // 2, c - 1):
            if 0 <= x < c:
                yield put(v, at, x)
    elif isinstance(c, float):
        for x in (float(int(c)),):
            if x != c:
                yield put(v, at, x)
    elif c is not None and not isinstance(c, (list, dict)):
        pass


def size_of(v):
    return len(json.dumps(v))


def shrink(mod, scenario, kind, seconds):
    """Greedy: smaller scenarios with a violation of the same kind."""
    end = time.monotonic() + seconds
    best = scenario
    tries = 0
    seen = set()
    frozen = getattr(mod, 'FROZEN', ())
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        todo = sorted(paths(best), key=len)
        for at in todo:
            if at and at[0] in frozen:
                continue
            try:
                get(best, at)
            except (KeyError, IndexError, TypeError):
                continue
            again = True
            while again and time.monotonic() < end:
                again = False
                try:
                    cands = list(candidates(best, at))
                except (KeyError, IndexError, TypeError):
                    break
                for cand in cands:
                    if time.monotonic() > end:
                        break
                    key = hashlib.blake2b(json.dumps(cand).encode(), digest_size=8).digest()
                    if key in seen or size_of(cand) > size_of(best):
                        continue
                    seen.add(key)
                    tries += 1
                    res = child(lambda: run_one(mod, cand), 20)
                    if res and res['outcome'] == 'violation' and res['kind'] == kind:
                        best = cand
                        progress = again = True
                        break
    return best, tries


# ---------------------------------------------------------------- main

def write_replay(mod, scenario, res, seed, index, tries):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': mod.ID, 'seed': seed, 'run': index, 'kind': res['kind'],
            'what': res['msg'], 'shrink_steps': tries, 'scenario': scenario}
    h = hashlib.blake2b(json.dumps(scenario, sort_keys=True).encode(),
                        digest_size=5).hexdigest()
    path = os.path.join(d, '%s-%s.json' % (mod.ID, h))
    with open(path, 'w') as f:
        json.dump(body, f, indent=1, sort_keys=True)
        f.write('\n')
    return path


def known_findings():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def replay(mod, path):
    with open(path) as f:
        body = json.load(f)
    res = simulate(mod, body['scenario'])
    print('replay of %s: %s' % (path, res['outcome']))
    if res['outcome'] == 'violation':
        print('  %s: %s' % (res['kind'], res['msg']))
        print('VIOLATION property=%s replay=%s' % (mod.ID, path))
        return 1
    if res['outcome'] != 'ok':
        print(res.get('msg'))
        return 2
    return 0


def check(mod, tier, seed, runs=None, jobs=None, quiet=False, shrink_s=60.0):
    """The whole check of one property -> exit status."""
    t0 = time.monotonic()
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
    runs = runs or mod.RUNS[tier]
    cap = float(os.environ.get('VERIF_CAP_S', '600' if tier == 'quick' else '36000'))
    print('%s %s: seed %s, %d runs, %d workers' % (mod.ID, tier, seed, runs, jobs))
    sys.stdout.flush()
    known = [k for k in known_findings()['findings'] if k['property'] == mod.ID]
    status = 0
    lines = []
    for k in known:  # each listed finding, by its own history
        res = simulate(mod, k['scenario'])
        if res['outcome'] == 'violation' and res['kind'] == k['kind']:
            lines.append('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))
        elif res['outcome'] == 'violation':
            path = write_replay(mod, k['scenario'], res, seed, -1, 0)
            lines.append('VIOLATION property=%s replay=%s' % (mod.ID, path))
            print('  %s: %s' % (res['kind'], res['msg']))
            status = 1
    if hasattr(mod, 'prepare'):
        mod.prepare()
    c = collections.Counter()
    faults = collections.Counter()
    states = set()
    growth = []
    found = []
    errors = []
    counts = collections.Counter()
    digests = {}
    mix = collections.Counter()
    left = [0]

    def on_result(res):
        counts[res['outcome']] += 1
        if res['outcome'] == 'deadline':
            return False
        c.update(res['c'])
        faults.update(res['faults'])
        states.update(res['states'])
        digests[res['i']] = res['digest']
        if len(digests) % max(1, runs // 10) == 0:
            growth.append([len(digests), len(states)])
        if res['outcome'] == 'violation':
            found.append(res)
            return True
        if res['outcome'] == 'error':
            errors.append(res)
            return True
        return False
    bad = run_pool(mod, seed, tier, runs, jobs, t0 + cap, on_result)
    sim_s = time.monotonic() - t0
    found.sort(key=lambda r: r['i'])
    nviol = 0
    if found:
        res = found[0]
        sc = scenario_for(mod, seed, tier, res['i'])
        small, tries = shrink(mod, sc, res['kind'], shrink_s)
        final = simulate(mod, small)
        if final['outcome'] != 'violation':
            small, final = sc, res
        path = write_replay(mod, small, final, seed, res['i'], tries)
        print('run %d: %s: %s' % (res['i'], res['kind'], res['msg']))
        print('minimised to %d bytes in %d attempts: %s'
              % (size_of(small), tries, final['msg']))
        lines.append('VIOLATION property=%s replay=%s' % (mod.ID, path))
        nviol = 1
        status = 1
    for e in errors[:3]:
        print('HARNESS ERROR in run %s:\n%s' % (e.get('i'), e['msg']))
    if bad:
        print('HARNESS ERROR: %d worker processes failed' % bad)
    if counts['deadline']:
        print('note: the time cap of %.0f s ended the search after %d of %d runs'
              % (cap, len(digests), runs))
    if not status and (errors or bad):
        status = 2
    if not status and c.get('evaluations', 0) < 1:
        print('HARNESS ERROR: nothing was evaluated')
        status = 2
    wall = time.monotonic() - t0
    h = hashlib.blake2b(digest_size=16)
    for i in sorted(digests):
        h.update(('%d %s\n' % (i, digests[i])).encode())
    done = counts['ok'] + counts['violation'] + counts['invalid']
    desc = dict(mod.DESCRIBE)
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': int(c.get('evaluations', 0)),
            'distinct_nontrivial': len(states),
            'rule': desc.pop('rule'),
            'samples': [
                'seed %s run %d: %s' % (
                    seed, i, json.dumps(scenario_for(mod, seed, tier, i))[:600])
                for i in range(min(3, runs))],
            'simulated_runs': done,
            'runs_per_hour': int(done / max(sim_s, 1e-6) * 3600),
            'seeds': 'run i uses the PRNG seeded by blake2b(VERIF_SEED/property/i)',
            'outcomes': dict(counts),
            'faults_injected': dict(sorted(faults.items())),
            'counters': dict(sorted(c.items())),
            'simulated_time': '%d simulated steps (operations, writes, reads, scheduling '
                              'points); the library has no timers, so time is counted in steps'
                              % c.get('steps', 0),
            'states_measure': desc.pop('states'),
            'states_growth': sorted(growth),
            'event_log_digest': h.hexdigest(),
            'real_code': desc.pop('real'),
            'stubs': desc.pop('stubs'),
        },
        'assumptions': desc.pop('assumptions'),
        'wall_s': round(wall, 1),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s: %d runs (%s), %d evaluations, %d distinct states, faults %s, %.1f s, log %s' % (
        mod.ID, done, dict(counts), c.get('evaluations', 0), len(states),
        dict(sorted(faults.items())), wall, h.hexdigest()[:12]))
    for line in lines:
        print(line)
    sys.stdout.flush()
    return status
