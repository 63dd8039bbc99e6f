"""python run.py check P01 quick|thorough   |   python run.py replay FILE
   python run.py digest P01 RUNS            (prints the digest of the event logs)
"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    env = os.environ
    want = {'PYTHONHASHSEED': env.get('VERIF_HASHSEED', '0'),
            'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONPYCACHEPREFIX': '/nonexistent/pycache'}
    if any(env.get(k) != v for k, v in want.items()):
        env.update(want)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    repo = env.get('VERIF_REPO', '/repo')
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.dirname(HERE))
    sys.path.insert(0, repo)
    from sim import core, sched, world
    sched.install()     # (before pdfme can make locks)
    world.clocks()      # (and before it can get hold of the clock)
    import pdfme
    at = os.path.dirname(os.path.dirname(os.path.abspath(pdfme.__file__)))
    if at != os.path.abspath(repo):
        print('HARNESS ERROR: pdfme comes from %s' % at)
        return 2
    world.install()
    cmd = sys.argv[1]
    if cmd == 'setup':  # nothing to compile: see that everything loads
        from sim import gen, model, observe, session, pdfread
        pdfread.metrics()
        os.makedirs(os.path.join(os.path.dirname(HERE), 'evidence'), exist_ok=True)
        print('ready')
        return 0
    if cmd == 'replay':
        with open(sys.argv[2]) as f:
            pid = json.load(f)['property']
    else:
        pid = sys.argv[2]
    mod = importlib.import_module('sim.props.' + pid.lower())
    seed = int(env.get('VERIF_SEED', '1') or 1)
    if cmd == 'serve':
        return mod.serve(sys.argv[3])
    if hasattr(mod, 'prepare') and cmd != 'check':
        mod.prepare()
    if cmd == 'replay':
        return core.replay(mod, sys.argv[2])
    if cmd == 'check':
        tier = sys.argv[3] if len(sys.argv) > 3 else env.get('VERIF_TIER', 'quick')
        runs = int(sys.argv[4]) if len(sys.argv) > 4 else None
        return core.check(mod, tier, seed, runs)
    if cmd == 'survey':  # all violations of many runs, by kind
        import collections
        n = int(sys.argv[3])
        kinds = collections.OrderedDict()

        def got(res):
            if res['outcome'] != 'ok':
                key = (res['outcome'], res.get('kind'))
                if key[0] == 'error' or str(key[1]).startswith('unexpected'):
                    key += (res['msg'].strip().splitlines()[-1][-150:],)
                kinds.setdefault(key, []).append(res)
            return False
        core.run_pool(mod, seed, 'quick', n, 8, 1e18, got)
        for k, v in kinds.items():
            v.sort(key=lambda r: r['i'])
            print(len(v), k)
            for r in v[:int(sys.argv[4]) if len(sys.argv) > 4 else 3]:
                print('    run %d: %s' % (r['i'], r['msg'][:1500]))
        return 0
    if cmd == 'min':  # minimise run i
        sc = core.scenario_for(mod, seed, 'quick', int(sys.argv[3]))
        res = core.simulate(mod, sc)
        print(res['outcome'], res.get('kind'), res.get('msg'))
        if res['outcome'] == 'violation':
            small, n = core.shrink(mod, sc, res["kind"], 300)
            print(json.dumps(small), core.simulate(mod, small)['msg'])
        return 0
    if cmd == 'one':  # debugging: one run, here
        sc = core.scenario_for(mod, seed, 'quick', int(sys.argv[3]))
        print(json.dumps(sc, indent=1))
        print(json.dumps(core.run_one(mod, sc), indent=1))
        return 0
    print('unknown command')
    return 2


if __name__ == '__main__':
    sys.exit(main())
