"""Regenerates MANIFEST.json from properties.jsonl and the check modules."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    f = f'{V}/mc/checks/{p["id"].lower()}.py'
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in (
                'TECHNIQUE', 'LEVEL', 'RULE', 'ASSUMPTIONS'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        'property': p['id'],
        'quick_cmd': f'python3 run.py {p["id"]} quick',
        'thorough_cmd': f'python3 run.py {p["id"]} thorough',
        'technique': 'model checking: ' + c['TECHNIQUE'],
        'level': c['LEVEL'],
        'level_note': 'Complete within its bounds on the real code: ' + c['RULE']
                      + '. Assumes: ' + '; '.join(c['ASSUMPTIONS']) + '.',
    })
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Each check is one Python process (plus workers) that imports /repo\'s working '
             'tree; nothing is built. See DESIGN.md.',
}, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'without')
