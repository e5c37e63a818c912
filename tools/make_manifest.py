"""Write /verif/MANIFEST.json from the property list and the check modules that exist."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(VERIF, 'properties.jsonl')) as f:
    properties = [json.loads(line) for line in f if line.strip()]

checks = []
for p in properties:
    path = os.path.join(VERIF, 'pbt', 'props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        continue
    with open(path) as f:
        source = f.read()
    both = '@random_case' in source, '@enum_case' in source
    method = {
        (True, True): 'property-based testing with generated inputs (hypothesis, seeded, shrinking) plus generated complete small scopes',
        (True, False): 'property-based testing with generated inputs (hypothesis, seeded, shrinking)',
        (False, True): 'generated complete small scopes',
    }[both]
    cmd = '/opt/venv/bin/python -W ignore pbt/run.py %s --tier %%s' % p['id']
    checks.append({
        'property': p['id'],
        'quick_cmd': cmd % 'quick',
        'thorough_cmd': cmd % 'thorough',
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': method + ', decided by comparison with an independent reference model or algebraic relation',
        'level': 'exploration',
        'level_note': 'Searches generated inputs up to the sizes stated in DESIGN.md; a pass means no counterexample among them.',
    })

manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -W ignore pbt/run.py --help > /dev/null',
    'checks': checks,
    'not_applicable': [],
    'notes': 'All checks import the library from /repo directly. Failures are stored in replays/ and can be repeated with: '
             '/opt/venv/bin/python -W ignore pbt/run.py --replay FILE',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', 'missing:', [p['id'] for p in properties if p['id'] not in {c['property'] for c in checks}])
