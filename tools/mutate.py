#!/usr/bin/env python3
"""
mutate.py list FILE...        the mutants of the files of /repo
mutate.py run OUT FILE...     those which pass the tests, and what the checks
                              say (with a fraction of the cases of quick);
              SHARE=4: a quarter of the cases, SAMPLE=.3: of the mutants

A crude way to find what the checks are blind to: every survivor is to be
looked at. Works in scratch copies.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.budget import BUDGET       # noqa

REPO = '/repo'
PROPS = [
    ('asterisklint/helper/', 'C02 C01 C03'),
    ('contrib/', 'C03 C02 C10'),
    ('asterisklint/file.py', 'C08 C07 C15 C04 C11 C09 C12'),
    ('asterisklint/config', 'C04 C07 C15 C11 C09 C12'),
    ('asterisklint/defines.py', 'C12 C04 C05'),
    ('asterisklint/where.py', 'C04 C07 C12'),
    ('asterisklint/main.py', 'C13 C10'),
    ('asterisklint/mainutil.py', 'C04 C16 C10 C15'),
    ('asterisklint/commands/', 'C16 C04 C10 C15 C12'),
    ('asterisklint/cls.py', 'C14 C10'),
    ('asterisklint/version.py', 'C14 C10'),
    ('asterisklint/dialplan.py', 'C04 C15 C05 C07 C09 C11 C10'),
    ('asterisklint/func_odbc.py', 'C04 C15 C10 C11'),
    ('web/', 'C06 C05'),
    ('asterisklint/', 'C14 C04 C15 C05 C10'),
]
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
        ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
        ast.NotIn: 'in'}


def mutants(path):
    with open(os.path.join(REPO, path)) as fp:
        text = fp.read()
    lines = text.splitlines(True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = text.encode()

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def seg(node):
        a, b = span(node)
        return data[a:b].decode()

    found = []

    def add(node, new, what):
        a, b = span(node)
        found.append((node.lineno, what, data[:a] + new.encode() + data[b:]))

    tree = ast.parse(text)
    for node in ast.walk(tree):
        if isinstance(node, ast.ClassDef) and any(
                i.id in ('ErrorDef', 'WarningDef', 'HintDef', 'DupeDefMixin')
                for i in node.bases if isinstance(i, ast.Name)):
            for child in ast.walk(node):
                child.skip = True
        if getattr(node, 'skip', False):
            continue
        if isinstance(node, ast.Expr) and not isinstance(
                node.value, (ast.Constant, ast.Yield, ast.YieldFrom)):
            add(node, 'pass', 'delete: ' + seg(node)[:60])
        elif isinstance(node, (ast.Assign, ast.AugAssign)):
            if isinstance(getattr(node, 'targets', [node])[0], (
                    ast.Attribute, ast.Subscript, ast.AugAssign)) or (
                        isinstance(node, ast.AugAssign)):
                add(node, 'pass', 'delete: ' + seg(node)[:60])
            if isinstance(node.value, ast.Call) and node.value.args and (
                    not node.value.keywords) and len(node.value.args) == 1:
                add(node.value, seg(node.value.args[0]),
                    'unwrap: ' + seg(node.value)[:60])
        elif isinstance(node, (ast.Raise, ast.Break, ast.Continue)):
            add(node, 'pass', 'delete: ' + seg(node)[:60])
        elif isinstance(node, ast.Return) and node.value is not None:
            add(node, 'pass', 'delete: ' + seg(node)[:60])
        elif isinstance(node, (ast.If, ast.While)):
            add(node.test, 'not ({})'.format(seg(node.test)),
                'negate: ' + seg(node.test)[:60])
            if isinstance(node, ast.If):
                add(node.test, 'True or ({})'.format(seg(node.test)),
                    'always: ' + seg(node.test)[:60])
                add(node.test, 'False and ({})'.format(seg(node.test)),
                    'never: ' + seg(node.test)[:60])
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            new = SWAP.get(type(node.ops[0]))
            if new:
                add(node, '{} {} {}'.format(
                    seg(node.left), new, seg(node.comparators[0])),
                    'swap: ' + seg(node)[:60])
        elif isinstance(node, ast.BoolOp):
            op = ' and ' if isinstance(node.op, ast.Or) else ' or '
            add(node, '(' + op.join('({})'.format(seg(i))
                                    for i in node.values) + ')',
                'and/or: ' + seg(node)[:60])
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            add(node.type, 'ZeroDivisionError', 'except: ' + seg(node.type))
            add(node.type, 'Exception', 'catch all: ' + seg(node.type))
        elif isinstance(node, ast.Constant) and isinstance(
                node.value, int) and not isinstance(node.value, bool):
            add(node, str(node.value + 1), 'plus one: ' + seg(node))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            add(node, str(not node.value), 'not: ' + seg(node))
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
            if node.func.id in ('sorted', 'reversed', 'set') and node.args:
                add(node, 'list({})'.format(seg(node.args[0])),
                    'unsorted: ' + seg(node)[:60])
    found.sort(key=lambda x: (x[0], x[1]))
    return found


def passes(copy):
    out = os.path.join(copy, '.mut.json')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    # (The tests are run where they are: bind mounted.)
    script = ('mount --make-rprivate / && mount --bind {0} /repo && '
              'mount --bind {0}.vp /opt/vp/work && '
              'timeout 60 bash /opt/vp/test.sh {1}').format(copy, out)
    subprocess.run(['unshare', '-m', 'bash', '-c', script], env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        with open(out) as fp:
            got = json.load(fp)
    except (OSError, ValueError):
        return False
    with open('/opt/vp/BASELINE.json') as fp:
        base = json.load(fp)
    stable = base.get('stable') or base.get('passed') or base.get('tests')
    passed = set(got.get('passed') or got.get('pass') or [])
    return all(i in passed for i in stable)


def main():
    if sys.argv[1] == 'list':
        for path in sys.argv[2:]:
            for line, what, _ in mutants(path):
                print('{}:{} {}'.format(path, line, what))
        return
    share = float(os.environ.get('SHARE', '4'))
    sample = float(os.environ.get('SAMPLE', '1'))
    rng = random.Random(int(os.environ.get('SEED', '1')))
    top = tempfile.mkdtemp(prefix='mutate.')
    copy = os.path.join(top, 'repo')
    os.mkdir(copy + '.vp')
    subprocess.check_call(['cp', '-a', REPO, copy])
    with open(sys.argv[2], 'a') as out:
        for path in sys.argv[3:]:
            props = next(p for prefix, p in PROPS if path.startswith(prefix))
            with open(os.path.join(REPO, path), 'rb') as fp:
                original = fp.read()
            for line, what, data in mutants(path):
                if rng.random() >= sample:
                    continue
                name = '{}:{} {}'.format(path, line, what.replace('\n', ' '))
                with open(os.path.join(copy, path), 'wb') as fp:
                    fp.write(data)
                try:
                    compile(data, path, 'exec')
                except SyntaxError:
                    continue
                if not passes(copy):
                    continue
                verdict = 'SURVIVED'
                for prop in props.split():
                    env = dict(os.environ, VERIF_REPO=copy, VERIF_COUNT=str(
                        int(BUDGET[prop]['quick'] / share)))
                    try:
                        rc = subprocess.run(
                            [sys.executable, 'check.py', prop], cwd=HERE,
                            env=env, stdout=subprocess.DEVNULL, timeout=600,
                            stderr=subprocess.DEVNULL).returncode
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    if rc:
                        verdict = '{}={}'.format(prop, rc)
                        break
                print(verdict, name, file=out, flush=True)
            with open(os.path.join(copy, path), 'wb') as fp:
                fp.write(original)
    shutil.rmtree(top)


main()
