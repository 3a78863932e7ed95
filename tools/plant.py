"""Writes and confirms planted bugs (development tool; no check uses it).

    python3 tools/plant.py [--check] [ID...]

Each file tools/bugs/*.py holds BUGS: dicts with id, property, file, edits [(old, new)...], needs, breaks, demo (Python text).
For each: the patch is made against /repo's HEAD in a scratch copy, the demonstration must pass without and fail with it, the
stable tests must pass with it, and (--check) the property's check is run against the patched copy.
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', QT_QPA_PLATFORM='offscreen', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1')
DEMO = '''#!/bin/bash
# run with the repository as working directory: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
export PYTHONPATH="$PWD:$here"
scratch=$(mktemp -d) || exit 3
trap 'case "$scratch" in /tmp/*) rm -rf -- "$scratch";; esac' EXIT
export TMPDIR="$scratch" MPLCONFIGDIR="$scratch"
timeout 200 /opt/venv/bin/python "$here/demo.py"
'''
BASE = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '--grep', '^fix:', '--invert-grep', '-1'], text=True).strip()
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def own_lines(repo, path, diff):
    """warns if the change removes lines added by a fix commit"""
    blame = subprocess.check_output(['git', 'blame', '-s', 'HEAD', path], cwd=repo, text=True).splitlines()
    number = 0
    for line in diff.splitlines():
        if line.startswith('@@'):
            number = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and not line.startswith('---'):
            if not blame[number - 1].startswith('^') and not blame[number - 1].startswith(BASE):
                print('    not an original line: %s' % line)
            number += 1
        elif line.startswith(' '):
            number += 1


def note(bug, prop, caught):
    path = os.path.join(ROOT, 'tools', 'catches.json')
    data = json.load(open(path)) if os.path.exists(path) else {}
    entry = data.setdefault(bug, {})
    entry.setdefault('first', bool(caught))
    entry.setdefault('now', {})[prop] = bool(caught)
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)


def plant(bug, check):
    work = tempfile.mkdtemp(prefix='plant')
    repo = os.path.join(work, 'repo')
    try:
        subprocess.check_call(['git', 'clone', '-q', os.environ.get('PLANT_FROM', '/repo'), repo])
        out = os.path.join(ROOT, 'seeded', bug['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
        if 'from lab import' in bug['demo']:
            shutil.copy(os.path.join(ROOT, 'tools', 'bugs', 'lab.txt'), os.path.join(out, 'lab.py'))
        if 'from standin import' in bug['demo']:
            shutil.copy(os.path.join(ROOT, 'mc', 'matlab.py'), os.path.join(out, 'standin.py'))
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        before = run(['bash', os.path.join(out, 'demo.sh')], repo)
        for old, new in bug['edits']:
            path = os.path.join(repo, bug['file'])
            text = open(path).read()
            assert text.count(old) == 1, (bug['id'], text.count(old), old)
            open(path, 'w').write(text.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=repo, text=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        own_lines(repo, bug['file'], diff)
        after = run(['bash', os.path.join(out, 'demo.sh')], repo)
        tests = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-rA', 'tests'], repo, PYTHONPATH=repo)
        passed = {line.split()[1].replace('.py', '').replace('/', '.').replace('::', '.', 1) for line in tests.stdout.splitlines() if line.startswith('PASSED')}
        missing = [s for s in STABLE if s.replace('::', '.') not in {p.replace('::', '.') for p in passed}]
        verdict = 'ok' if before.returncode == 0 and after.returncode not in (0, 124) and not missing else 'BAD'
        print('%-28s %s demo %d/%d%s' % (bug['id'], verdict, before.returncode, after.returncode, ' missing %s' % missing if missing else ''), flush=True)
        if before.returncode:
            print(before.stdout[-1500:])
        if after.returncode == 0:
            print(after.stdout[-500:])
        elif os.environ.get('SHOW'):
            print('   ', after.stdout.strip().splitlines()[-1][:300])
        if check and verdict == 'ok':
            for prop in [bug['property']] + list(bug.get('also', ())):
                got = run(['./check', prop], ROOT, QTUNE_REPO=repo)
                lines = got.stdout.splitlines()
                hit = bool(lines) and any(line.startswith('VIOLATION property=' + prop) for line in lines)
                note(bug['id'], prop, hit and got.returncode == 1)
                print('    %s: %s (exit %d) %s' % (prop, 'caught' if hit and got.returncode == 1 else 'MISSED', got.returncode, lines[-1] if lines else ''), flush=True)
                if hit:
                    print('       ', lines[1][:200])
    finally:
        shutil.rmtree(work)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    for path in sorted(glob.glob(os.path.join(ROOT, 'tools', 'bugs', '*.py'))):
        for bug in runpy.run_path(path)['BUGS']:
            if not args or bug['id'] in args or os.path.basename(path)[:-3] in args:
                plant(bug, '--check' in sys.argv)


if __name__ == '__main__':
    main()
