"""Writes MANIFEST.json from the check modules that exist (python3 tools/gen_manifest.py)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_CLAIMED = {}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    q = json.loads(line)
    path = os.path.join(ROOT, 'mc', 'checks', q['id'].lower() + '.py')
    if not os.path.exists(path) or q['id'] in NOT_CLAIMED:
        na.append(dict(property=q['id'], reason=NOT_CLAIMED.get(q['id'], 'check not built yet')))
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    bounds = consts['BOUNDS']
    checks.append(dict(
        property=q['id'], quick_cmd='./check %s' % q['id'], thorough_cmd='VERIF_TIER=thorough ./check %s' % q['id'],
        evidence_file='evidence/%s.json' % q['id'], technique=consts['TECHNIQUE'], level=consts['LEVEL'],
        level_note='Holds on every execution within: %s. Assumes: %s.' % (
            bounds['quick'] if isinstance(bounds, dict) else bounds, '; '.join(consts['ASSUMPTIONS']))))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='All checks run the real code of /repo; no hooks are needed. Known findings: known_findings.txt.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [n['property'] for n in na])
