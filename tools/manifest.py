"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
DEFAULT = 'runtime monitoring: full-prediction reference-model oracle over random definitions, instances and documents, both backends'
NOTE = ('Held on the executions run and counted in the evidence file; assumes the reference model in /verif/harness (spec, refser, refparse) '
        'states the documented mapping, and pydantic, lxml and expat as installed.')
checks, na = [], []
for p in props:
    f = os.path.join(V, 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    c = {}
    for n in ast.parse(open(f, encoding='utf-8').read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c.get('TECHNIQUE', DEFAULT), 'level': 'exploration', 'level_note': c.get('NOTE', NOTE),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 12)"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not built')
