"""Makes seeded/<id>/ from a spec file (python: id, property, needs, breaks,
edits=[(file, old, new)], demo) and confirms it on a scratch copy.

  plant.py SPEC...       make and confirm
  plant.py --check ID... run the property's quick check against it (on /repo)
"""
import json, os, re, shutil, subprocess, sys, tempfile
REPO = os.environ.get('PLANT_REPO', '/repo')
BASE = 'd41a999'      # the commit we were given
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(ENV, **kw), capture_output=True,
                          text=True)


def tests(copy):
    work = copy + '.work'
    s = open('/opt/vp/test.sh').read().replace('/repo', copy).replace('/opt/vp/work', work)
    sp = copy + '.test.sh'
    open(sp, 'w').write(s)
    sh('bash %s %s.json' % (sp, copy), '/tmp')
    base = json.load(open('/opt/vp/BASELINE.json'))
    try:
        got = json.load(open(copy + '.json'))
    except OSError:
        return None, base
    for f in (sp, copy + '.json'):
        os.remove(f)
    shutil.rmtree(work, ignore_errors=True)
    return got, base


def make(spec):
    d = {}
    exec(open(spec).read(), d)
    out = os.path.join(SEEDED, d['id'])
    copy = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    try:
        sh('cp -a %s/. %s' % (REPO, copy), '/')
        sh('git checkout -q -- .', copy)
        demo = tempfile.mkdtemp(prefix='plantdemo_', dir='/tmp')
        with open(demo + '/demo.py', 'w') as f:
            f.write(d['demo'].lstrip('\n'))
        with open(demo + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                    'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        a = sh('bash %s/demo.sh' % demo, copy)
        if a.returncode:
            return print(d['id'], 'DEMO FAILS ON UNCHANGED', a.stdout[-800:], a.stderr[-1500:])
        for f, old, new in d['edits']:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return print(d['id'], 'EDIT MATCHES', s.count(old), repr(old))
            open(p, 'w').write(s.replace(old, new))
        for f in {e[0] for e in d['edits']}:
            was = sh('git show %s:%s' % (BASE, f), copy).stdout.splitlines()
            gone = [l[1:] for l in sh('git diff -U0 %s' % f, copy).stdout.splitlines()
                    if l.startswith('-') and not l.startswith('---')]
            if gone and not any(l.strip() and l in was for l in gone):
                return print(d['id'], 'ONLY CHANGES NEW LINES', gone)
            for l in gone:
                if l not in was:
                    print(d['id'], 'note: not an original line', repr(l))
        b = sh('bash %s/demo.sh' % demo, copy)
        if not b.returncode:
            return print(d['id'], 'DEMO PASSES WITH THE CHANGE', b.stdout[-500:])
        got, base = tests(copy)
        want = base.get('passed') or base.get('stable') or base
        have = (got or {}).get('passed', [])
        bad = [t for t in want if t not in have]
        if bad:
            return print(d['id'], 'TESTS FAIL', bad[:5])
        diff = sh('git diff', copy).stdout
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(demo + '/' + f, out)
        json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        print(d['id'], 'ok:', (b.stdout + b.stderr).strip().splitlines()[-1][:200])
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)


def check(i):
    m = json.load(open('%s/%s/meta.json' % (SEEDED, i)))
    a = sh('git apply %s/%s/patch.diff' % (SEEDED, i), REPO)
    if a.returncode:
        return print(i, 'DOES NOT APPLY', a.stderr)
    try:
        r = sh('/opt/venv/bin/python sim/run.py check %s quick' % m['property'], V,
               VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=REPO)
    finally:
        sh('git checkout -q -- .', REPO)
    print(i, m['property'], 'exit', r.returncode, [l for l in r.stdout.splitlines()
                                                   if 'VIOLATION' in l][:1],
          r.stderr[-300:] if r.returncode not in (0, 1) else '', flush=True)


if sys.argv[1] == '--check':
    for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
        check(i)
else:
    for s in sys.argv[1:]:
        make(s)
