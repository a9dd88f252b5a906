#!/usr/bin/env python3
"""
plant.py DEFINITIONS.py [id...]: write seeded/<id>/ for every bug that is
defined, if it is a good one. Works in /repo, and leaves it as it was.
"""
import json
import os
import re
import runpy
import subprocess
import sys

REPO = '/repo'
SEEDED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'seeded')
PRELUDE = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
'''


def sh(*args, **kwargs):
    return subprocess.run(args, stdout=subprocess.PIPE, cwd=REPO,
                          stderr=subprocess.STDOUT, text=True, **kwargs)


def clean():
    sh('git', 'checkout', '--', '.')
    sh('find', REPO, '-name', '__pycache__', '-prune', '-exec', 'rm', '-rf',
       '{}', '+')


def originals(path):
    """Numbers of the lines that were there in the base commit."""
    base = sh('git', 'rev-list', '--max-parents=0', 'HEAD').stdout.split()[-1]
    ret = set()
    for n, line in enumerate(sh('git', 'blame', '-l', '--root', path)
                             .stdout.splitlines()):
        if line.lstrip('^').startswith(base):
            ret.add(n + 1)
    return ret


def tests():
    sh('bash', '/opt/vp/build.sh')
    sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
    with open('/tmp/plant.json') as fp:
        got = json.load(fp)
    with open('/opt/vp/BASELINE.json') as fp:
        base = json.load(fp)
    stable = base.get('stable') or base.get('passed') or base.get('tests')
    passed = set(got.get('passed') or got.get('pass') or [])
    return [i for i in stable if i not in passed]


def plant(bug):
    name = bug['id']
    clean()
    removed = 0
    for path, old, new in bug['edits']:
        full = os.path.join(REPO, path)
        with open(full) as fp:
            text = fp.read()
        assert text.count(old) == 1, (name, text.count(old), old)
        with open(full, 'w') as fp:
            fp.write(text.replace(old, new))
    diff = sh('git', 'diff').stdout
    for path in {i[0] for i in bug['edits']}:
        ours = originals_at_head[path] if path in originals_at_head else (
            originals_at_head.setdefault(path, originals_clean(path)))
        for line in removed_lines(diff, path):
            if line in ours:
                removed += 1
            else:
                print(name, 'changes line', path, line, 'which is not theirs')
    if not removed and not bug.get('adds'):
        print(name, 'REMOVES NOTHING of the original')
    where = os.path.join(SEEDED, name)
    os.makedirs(where, exist_ok=True)
    with open(os.path.join(where, 'patch.diff'), 'w') as fp:
        fp.write(diff)
    with open(os.path.join(where, 'demo.sh'), 'w') as fp:
        fp.write('#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    with open(os.path.join(where, 'demo.py'), 'w') as fp:
        fp.write(PRELUDE + bug['demo'].lstrip('\n'))
    with open(os.path.join(where, 'meta.json'), 'w') as fp:
        json.dump({'property': bug['property'], 'needs': bug['needs'],
                   'what_it_breaks': bug['breaks']}, fp, indent=1)
        fp.write('\n')
    failed = tests()
    with_patch = sh('sh', where + '/demo.sh', timeout=300)
    clean()
    without = sh('sh', where + '/demo.sh', timeout=300)
    clean()
    good = not failed and with_patch.returncode and not without.returncode
    print(name, 'GOOD' if good else 'BAD', 'tests failing', failed[:3],
          'demo', without.returncode, with_patch.returncode)
    if not good or '-v' in sys.argv:
        print('--- with:', with_patch.stdout[-600:])
        print('--- without:', without.stdout[-600:])
    return good


originals_at_head = {}


def originals_clean(path):
    diff = sh('git', 'diff').stdout
    sh('git', 'stash')
    try:
        return originals(path)
    finally:
        sh('git', 'stash', 'pop')


def removed_lines(diff, path):
    current, ret, no = None, [], 0
    for line in diff.splitlines():
        if line.startswith('--- '):
            current = line[6:]
        elif line.startswith('@@'):
            no = int(re.match(r'@@ -(\d+)', line).group(1))
        elif line.startswith('+++') or line.startswith('diff '):
            pass
        elif line.startswith('-'):
            if current == path:
                ret.append(no)
            no += 1
        elif not line.startswith('+'):
            no += 1
    return ret


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = [i for i in sys.argv[2:] if i != '-v']
    assert not sh('git', 'status', '--short').stdout.strip()
    for bug in bugs:
        if not only or bug['id'] in only:
            plant(bug)


main()
