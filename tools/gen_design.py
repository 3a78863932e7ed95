"""Writes DESIGN.md from tools/design.head.md, the texts below, the bounds stated by the checks and tools/catches.json."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]

# oracle / why the tests cannot reach it / seconds of the quick and thorough tier (idle sandbox)
TEXT = json.load(open(os.path.join(ROOT, 'tools', 'design.json')))


def constants(prop):
    path = os.path.join(ROOT, 'mc', 'checks', prop.lower() + '.py')
    if not os.path.exists(path):
        return None
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except (ValueError, AttributeError):
                pass
    return out


def main():
    parts = [open(os.path.join(ROOT, 'tools', 'design.head.md')).read().strip(), '', '## The properties', '']
    for p in PROPS:
        c = constants(p['id'])
        t = TEXT.get(p['id'], {})
        parts.append('### %s %s' % (p['id'], p['title']))
        parts.append('')
        if c is None:
            parts += ['Not applicable: ' + t['not_applicable'], '']
            continue
        b = c['BOUNDS'] if isinstance(c['BOUNDS'], dict) else dict(quick=c['BOUNDS'], thorough=c['BOUNDS'])
        parts.append('* What is enumerated: %s' % c['RULE'])
        parts.append('* Oracle: %s' % t['oracle'])
        parts.append('* Bounds, quick: %s' % b['quick'])
        parts.append('* Bounds, thorough: %s' % b['thorough'])
        parts.append('* Assumed: %s' % '; '.join(c['ASSUMPTIONS']))
        parts.append('* Cost: quick about %s, thorough about %s (8 cores)' % tuple(t['cost']))
        parts.append('* Beyond tests: %s' % t['why'])
        parts.append('')
    parts.append(open(os.path.join(ROOT, 'tools', 'design.tail.md')).read().strip())
    parts += ['', '## Planted bugs and the checks that report them', '',
              'Made by `tools/plant.py` from `tools/bugs/*.py` (each confirmed: demonstration passes without and fails with the change, stable '
              'tests pass with it). "first run" tells whether the check reported it as it was when the bug was planted.', '',
              '| bug | needs | reported by | first run |', '|---|---|---|---|']
    catches = json.load(open(os.path.join(ROOT, 'tools', 'catches.json')))
    for bug in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        meta = json.load(open(os.path.join(ROOT, 'seeded', bug, 'meta.json')))
        entry = catches.get(bug, {})
        parts.append('| %s | %s | %s | %s |' % (bug, meta['needs'], ', '.join(k for k, v in sorted(entry.get('now', {}).items()) if v) or '(none)',
                                             'yes' if entry.get('first') else 'no'))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(parts) + '\n')


if __name__ == '__main__':
    main()
