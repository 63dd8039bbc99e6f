"""Writes /verif/MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, '/repo')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    try:
        m = importlib.import_module('sim.props.' + i.lower())
    except ModuleNotFoundError:
        na.append({'property': i, 'reason': 'no check yet: still being built'})
        continue
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python sim/run.py check %s quick' % i,
        'thorough_cmd': '/opt/venv/bin/python sim/run.py check %s thorough' % i,
        'technique': 'deterministic simulation with fault injection: ' + m.TECHNIQUE,
        'level': m.LEVEL,
        'level_note': m.LEVEL_NOTE,
        'evidence_file': 'evidence/%s.json' % i,
    })
man = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python sim/run.py setup',
    'hooks': {'guard': 'none', 'enable': 'no hooks: every seam is outside the code '
              '(random source, clock, open(), zlib, output object, line events, registry)', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
