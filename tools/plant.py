"""
Plant bugs: python3 plant.py SPEC.py [id ...]

SPEC.py defines BUGS, a list of dicts with id, property, needs, breaks, edits [(file, old, new)] and demo (Python code
that fails with the change). Every bug is tried in a scratch copy of /repo and written to /verif/seeded/<id>/ if its
demonstration passes on the unchanged tree, fails with the change, and the test suite passes with the change.

    python3 plant.py --catch [id ...]    run the check of the property with the change applied to /repo (undone afterwards)
"""
import json
import os
import runpy
import subprocess
import sys

REPO, COPY, SEEDED = '/repo', '/tmp/plant-copy', '/verif/seeded'
BASE = '3013618'
PYTHON = '/opt/venv/bin/python'


def run(command, cwd=None, **env):
    return subprocess.run(command, cwd=cwd, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1', **env}, capture_output=True, text=True)


def fresh():
    if not os.path.isdir(COPY):
        run(['cp', '-a', REPO, COPY])
    run(['git', 'fetch', '-q', REPO, 'main'], COPY)
    run(['git', 'reset', '-q', '--hard', 'FETCH_HEAD'], COPY)


def plant(bug):
    fresh()
    folder = os.path.join(SEEDED, bug['id'])
    os.makedirs(folder, exist_ok=True)
    with open(folder + '/demo.py', 'w') as f:
        f.write(bug['demo'].lstrip('\n'))
    with open(folder + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    demo = ['bash', folder + '/demo.sh']
    clean = run(demo, COPY, PYTHONPATH=COPY)
    problems = []
    if clean.returncode:
        problems.append('demo fails on the unchanged tree: ' + clean.stderr[-600:])
    for name, old, new in bug['edits']:
        path = os.path.join(COPY, 'discretehelpers', name)
        text = open(path).read()
        if text.count(old) != 1:
            problems.append('%d places in %s' % (text.count(old), name))
            continue
        open(path, 'w').write(text.replace(old, new))
        base = run(['git', 'show', BASE + ':discretehelpers/' + name], COPY).stdout.split('\n')
        for line in run(['git', 'diff', '-U0', '--', path], COPY).stdout.split('\n'):
            if line.startswith('-') and not line.startswith('---') and line[1:] not in base:
                problems.append('line of a later commit: ' + line)
    if problems:
        return problems
    patch = run(['git', 'diff'], COPY).stdout
    broken = run(demo, COPY, PYTHONPATH=COPY)
    if not broken.returncode:
        problems.append('demo passes with the change')
    print('   ', broken.stderr.strip().split('\n')[-1][:200])
    tests = run([PYTHON, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=300'], COPY, PYTHONPATH=COPY, PYTHONHASHSEED='0')
    summary = tests.stdout.strip().split('\n')[-1]
    if tests.returncode or '724 passed' not in summary:
        problems.append('tests: ' + summary + '\n' + '\n'.join([x for x in tests.stdout.split('\n') if x.startswith('FAILED')][:5]))
    with open(folder + '/patch.diff', 'w') as f:
        f.write(patch)
    with open(folder + '/meta.json', 'w') as f:
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']}, f, indent=1)
        f.write('\n')
    return problems


def catch(ids, others):
    """Without others only the check of the stated property."""
    assert not run(['git', 'status', '--porcelain'], REPO).stdout
    for name in ids:
        meta = json.load(open('%s/%s/meta.json' % (SEEDED, name)))
        applied = run(['git', 'apply', '%s/%s/patch.diff' % (SEEDED, name)], REPO)
        if applied.returncode:
            print(name, 'DOES NOT APPLY', applied.stderr)
            continue
        try:
            for prop in [meta['property']] + others:
                r = run([PYTHON, '-W', 'ignore', '/verif/pbt/run.py', prop], '/verif', VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER=os.environ.get('VERIF_TIER', 'quick'))
                lines = [x for x in r.stdout.split('\n') if x.startswith(prop + ' ')]
                print('%-28s %s %s  %s' % (name, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR ' + r.stderr[-300:]), lines[0][:150] if lines else ''), flush=True)
        finally:
            run(['git', 'checkout', '--', '.'], REPO)


def main(args):
    if args[0] == '--catch':
        others = [a for a in args[1:] if len(a) == 3 and a[0] == 'C']
        catch([a for a in args[1:] if a not in others] or sorted(os.listdir(SEEDED)), others)
        return
    bugs = runpy.run_path(args[0])['BUGS']
    for bug in bugs:
        if args[1:] and bug['id'] not in args[1:]:
            continue
        problems = plant(bug)
        print(bug['id'], 'planted' if not problems else 'REJECTED', *problems, sep='\n    ' if problems else ' ')
        if problems:
            run(['rm', '-rf', os.path.join(SEEDED, bug['id'])])


if __name__ == '__main__':
    main(sys.argv[1:])
