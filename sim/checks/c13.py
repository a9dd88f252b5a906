"""C13: commands are found, once each, whatever else is there."""
import os
import random
import re
import sys

from .. import core, proc, vfs
from ..core import REPO
from . import cli

NAMES = ['alpha', 'beta', 'zz', 'a', '0', 'x-y', 'x_y', 'x', 'long-' * 6 + 'o',
         'dialplan-check', 'modules-show', 'ls', 'ident-scan', 'show']
UNKNOWN = ['nosuch', 'Alpha', 'alpha.py', '../commands/alpha', '_hidden',
           'a.b', '/home/user/alpha', 'alpha ', '', '__init__', 'a\nb', '\xe9',
           'dialplan-check.py', 'helper/mutator', '.', 'dialplan', 'mutator',
           'commands', 'sub/alpha', 'alphb', 'a/b', 'x y', 'nosuch\0']
MARK = "    print('RAN', {where!r}, {name!r}, args)\n"
BODIES = {
    'good': '"""About {name}."""\n' 'def main(args, envs):\n' + MARK +
            '    return {code}\n',
    'many': '"""\n{name} and\n\n  more, much more of it, so much that it does '
            'not fit on a line.\n"""\n'
            'def main(args, envs):\n' + MARK + '    return {code}\n',
    'plain': 'def main(args, envs):\n' + MARK + '    return {code}\n',
    'blank': '"""  """\ndef main(args, envs):\n' + MARK +
             '    return {code}\n',
    'lib': 'from asterisklint import FileDialplanParser\n'
           'def main(args, envs):\n' + MARK + '    return {code}\n',
    'nomain': '"""No main."""\n',
    'empty': '',
    'syntax': 'syntax error (\n',
    'import': 'import nosuchmodule\n',
    'raise': 'raise ValueError({name!r})\n',
    'exit': 'raise SystemExit(3)\n',
    'exit0': 'import sys\nsys.exit()\n',
    'assert': 'assert False\n',
    'deep': 'def f():\n    f()\nf()\n',
    'bytes': '\0\0\0',
    'oserror': 'open("/nosuch/file")\n',
    'fakemain': 'main_ = 1\n',
}
RUNNABLE = ('good', 'many', 'plain', 'blank', 'lib')
OTHER_FILES = ['Upper.py', '_hid.py', '__init__.py', 'README', 'alpha.pyc',
               'alpha.py~', '.alpha.py', 'beta.txt', 'x y.py', 'a.b.py', '.py',
               'alpha', 'zz.PY', '#x.py']
USER = '/home/user/.asterisklint'
TAIL = 'asterisklint/commands'
FAULTS = [['errno', i] for i in ('EIO', 'EACCES', 'ENOENT', 'EMFILE', 'ENOMEM',
                                 'ESTALE', 'ELOOP', 'EPERM')] + [
    ['short', 30], ['vanish']]


# Places of a link to a directory, below the one in the path.
LEVELS = ['', '', '/asterisklint', '/' + TAIL]
HOMES = ['/home/user'] * 6 + ['/home/user/', '/home/link', '/nosuch', None]


def prepare():
    proc.preload('asterisklint.func_odbc', 'asterisklint.dialplan')
    proc.preload_mods()


def generate(rng, tier):
    dirs = []
    for n in range(rng.choice([0, 1, 2, 3])):
        dirs.append(['/work/path{}'.format(n), rng.choice(['front', 'end'])])
    if rng.random() < .8:
        dirs.append([USER, 'user'])
    rng.shuffle(dirs)
    names = rng.sample(NAMES, rng.choice([2, 4, 8]))
    entries = []            # [dir, file, kind, exit status]
    for path, _ in dirs:
        for name in names:
            if rng.random() < .6:
                kind = rng.choice(RUNNABLE * 3 + tuple(BODIES) + (
                    'dir', 'dangling', 'link', 'loop', 'unreadable'))
                entries.append([path, name + '.py', kind,
                                rng.choice([0, 0, 1, 2, 77])])
        for name in rng.sample(OTHER_FILES, rng.choice([0, 1, 4])):
            entries.append([path, name, rng.choice(['good', 'syntax', 'dir']),
                            0])
    case = {'dirs': dirs, 'entries': entries, 'nodirs': [],
            'linked': [], 'home': rng.choice(HOMES),
            'twice': rng.random() < .15, 'order': rng.randrange(1 << 30),
            'runs': rng.sample(names + NAMES[:4], 2) + [rng.choice(UNKNOWN)],
            'args': rng.sample(['-v', 'x', '--all', 'alpha', '-'],
                               rng.choice([0, 0, 1, 2])),
            'first': rng.random() < .1,
            'euid': rng.choice([0, 0, 1000]), 'salt': rng.randrange(1 << 30),
            'fault': rng.choice(FAULTS + [['vanish']] * 4 + [None])}
    for path, _ in dirs:
        r = rng.random()
        if r < .08:
            case['nodirs'].append([path, rng.choice(
                ['file', 'locked', 'nolist', 'dangling', 'gone'])])
        elif r < .25:
            case['linked'].append([path, rng.choice(LEVELS)])
    return case


def build(case):
    """The file system."""
    fs = vfs.FS()
    fs.mkdirs('/home/user')
    fs.mkdirs('/work/real')
    broken = dict(map(tuple, case['nodirs']))
    for path, _ in case['dirs']:
        fs.mkdirs(path)
        top = path + '/' + TAIL
        state = broken.get(path)
        if state in ('file', 'dangling'):
            fs.mkdirs(path + '/asterisklint')
            if state == 'file':
                fs.put(top, b'')
            else:
                fs.put_link(top, '/nosuch')
            continue
        if state == 'gone':
            continue
        fs.mkdirs(top)
    for path, file, kind, code in case['entries']:
        if broken.get(path) in ('file', 'dangling', 'gone'):
            continue
        where = '{}/{}/{}'.format(path, TAIL, file)
        body = BODIES.get(kind, BODIES['good']).format(
            where=path, name=file[:-3], code=code).encode('utf-8')
        if kind == 'dir':
            fs.mkdirs(where)
            fs.put(where + '/__init__.py', body)
        elif kind == 'dangling':
            fs.put_link(where, '/work/nosuch.py')
        elif kind == 'loop':
            fs.put_link(where, file)
        elif kind == 'link':
            fs.put_link(where, '/work/real/{}-{}'.format(
                path.replace('/', '_'), file))
            fs.put('/work/real/{}-{}'.format(path.replace('/', '_'), file),
                   body)
        else:
            fs.put(where, body, mode=0o000 if kind == 'unreadable' else 0o644)
    for path, state in case['nodirs']:
        node = fs.node(path + '/' + TAIL)
        if state == 'locked':
            node.mode = 0
        elif state == 'nolist':
            node.mode = 0o311
    for n, (path, level) in enumerate(case.get('linked', ())):
        node = fs.node(path + level)
        if node is not None:
            fs.put_link(path + level, '/work/linked{}'.format(n))
            fs.mkdirs('/work').entries['linked{}'.format(n)] = node.ino
    fs.put_link('/home/link', 'user')
    fs.euid = fs.egid = case['euid']
    fs.cwd = '/work'
    fs.seal()
    return fs


def real_commands():
    top = os.path.join(REPO, TAIL)
    return {i[:-3] for i in vfs.real.get('os.listdir', os.listdir)(top)
            if re.match(r'[a-z0-9][a-z0-9_-]*\.py$', i)}


def search(case):
    """The directories in the order in which they are looked at."""
    front = [i for i, where in case['dirs'] if where == 'front']
    end = [i for i, where in case['dirs'] if where == 'end']
    user = [i for i, where in case['dirs'] if where == 'user' and
            case.get('home', '/home/user') in HOMES[:8]]
    return user + front + [REPO] + end, front, end


def expect(case):
    """{name: (directory, kind, exit status)}, names which may be anything"""
    order = search(case)[0]
    ret, unknown = {}, set()
    table = {}
    for path, file, kind, code in case['entries']:
        table.setdefault(path, {})[file] = kind, code
    states = dict(map(tuple, case['nodirs']))
    for path in order:
        if path == REPO:
            for name in real_commands():
                ret.setdefault(name, (REPO, 'real', None))
            continue
        state = states.get(path)
        if state in ('file', 'dangling', 'gone'):
            continue
        for file, (kind, code) in table.get(path, {}).items():
            if not re.match(r'[a-z0-9][a-z0-9_-]*\.py$', file):
                continue
            name = file[:-3]
            if kind in ('dir', 'dangling', 'loop'):
                continue
            if case['euid'] and state in ('locked', 'nolist'):
                if name not in ret:
                    unknown.add(name)
                continue
            if kind == 'link' or (
                    kind == 'unreadable' and not case['euid']):
                kind = 'good'
            ret.setdefault(name, (path, kind, code))
    return ret, unknown


def call(case, out, args, plan=None, order=None):
    fs = build(case)
    fs.max_ops = 20000
    if plan:
        fs.plan = plan
    _, front, end = search(case)

    def setup():
        # What PYTHONPATH and site-packages come down to.
        script_dir = os.path.join(REPO, 'scripts')
        sys.path[:] = front + [i for i in sys.path if i not in (
            REPO, script_dir)] + end
        if case['twice']:
            sys.path += front + [REPO]
        home = case.get('home', '/home/user')
        os.environ.pop('HOME')
        if home is not None:
            os.environ['HOME'] = home
        if case['first']:
            sys.path.insert(0, '/nosuch')
            sys.path.append('')

    def entry():
        # The package is installed, so to say, between the others.
        sys.path.insert(len(front) + case['first'], REPO)
        import asterisklint.main
        return sys.exit(asterisklint.main.main(sys.argv[1:], os.environ))

    rng = random.Random(order)

    def shuffled(*names):
        names = list(names[-1])
        rng.shuffle(names)
        return names

    if order is not None:
        fs.dir_order = shuffled
        vfs.real_listdir_hook[0] = shuffled
        out.fault('other directory order')
    try:
        return proc.run(out, fs, entry, ['/usr/bin/asterisklint'] + args,
                        setup=setup)
    finally:
        vfs.real_listdir_hook[0] = None


LINE = re.compile(r'  (\S+)(?: +(.*))?$')


def plain(path):
    """Home may be called other things."""
    return path.replace('//', '/').replace('/home/link/', '/home/user/')


def parse_listing(text):
    """{name: [directory]}"""
    ret, where = {}, None
    for line in text.split('\n'):
        if line.endswith(':') and not line.startswith(' '):
            where = plain(line[:-1])
        elif line.startswith('  ') and line[2:3] not in ('', ' '):
            ret.setdefault(line.split()[0], []).append(where)
    return ret


def execute(case, out):
    base = call(case, out, ['ls'])
    if base is None:
        return
    want, unknown = expect(case)
    out.nontrivial = bool(case['entries'])
    out.note(base.exit, base.out, base.err)
    if not judge_listing(base, want, unknown, set(), out):
        return tell(base, out)
    other = call(case, out, ['ls'], order=case['order'])
    if other is None:
        return
    if (other.out, other.exit) != (base.out, base.exit):
        out.violate('order', 'the listing depends on the directory order')
        out.trace.append(base.out)
        out.trace.append(other.out)
        return
    for name in case['runs'] + sorted(case['runs'])[:1]:
        res = call(case, out, [name] + case['args'])
        if res is None:
            return
        out.note(res.exit, res.out, res.err)
        if not judge_run(res, name, case['args'], want, unknown, out):
            return tell(res, out)
    if case['fault']:
        sweep(case, out, ['ls'], base, want, unknown)
        if not out.violations:
            rng = random.Random(case['salt'])
            name = rng.choice(sorted(want)[:30])
            if want[name][1] in RUNNABLE:
                res = call(case, out, [name] + case['args'])
                if res is not None:
                    sweep(case, out, [name] + case['args'], res, want, unknown)


def tell(res, out, plan=None):
    out.trace.append('plan {}'.format(plan))
    for op in res.fs.log:
        out.trace.append('  {} {} {} {}'.format(*op))
    out.trace += [res.out, res.err, 'exit {}'.format(res.exit)]


def judge_listing(res, want, unknown, affected, out, plan=None):
    if res.exit != 0:
        out.violate('listing', 'ls exits with {} {}'.format(
            res.exit, res.error or res.err[-200:]))
        return False
    have = parse_listing(res.out)
    if have.pop('ls', []) != ['builtin']:
        out.violate('listing', 'ls itself is not listed once')
        return False
    for name in have:
        if len(have[name]) > 1:
            out.violate('twice', '{!r} is listed {} times: {}'.format(
                name, len(have[name]), have[name]))
            return False
    for name, (path, kind, _) in want.items():
        if name in affected or name in unknown or name == 'ls':
            continue
        top = path + '/' + TAIL
        if name not in have:
            if kind in RUNNABLE or kind == 'real':
                out.violate('listing', '{!r} is in {} and is not listed'
                            .format(name, top))
                return False
        elif have[name] != [top]:
            out.violate('where', '{!r} is listed in {}, it is run from {}'
                        .format(name, have[name][0], top))
            return False
    for name in have:
        if name not in want and name not in unknown and name not in affected:
            out.violate('listing', '{!r} is listed, and cannot be run'.format(
                name))
            return False
    out.sign('ls', len(have), bool(res.fs.fired))
    return True


def judge_run(res, name, args, want, unknown, out):
    if name in unknown or name == 'ls':
        return True
    ran = [i for i in res.out.split('\n') if i.startswith('RAN ')]
    path, kind, code = want.get(name, (None, None, None))
    if kind == 'real':
        return True
    out.sign('run', kind, res.exit)
    if kind in RUNNABLE:
        line = 'RAN {} {} {}'.format(path, name, args)
        if ran != [line] or res.exit != code:
            out.violate('run', '{!r} is in {}: {!r}, exit {} and not {}'
                        .format(name, path, ran, res.exit, code))
            return False
        return True
    if ran:
        out.violate('run', '{!r} ({} in {}): {!r}'.format(
            name, kind, path, ran))
        return False
    if kind == 'exit0':
        return True         # it says that it succeeded
    if res.exit == 0:
        out.violate('unknown', '{!r} ({}) exits with success'.format(
            name, kind))
        return False
    if kind in ('nomain', 'empty', 'fakemain', None):
        if res.error or not res.err.strip():
            if name.startswith('-') or not name:
                return True     # that is an option
            out.violate('unknown', '{!r} ({}) is refused with {!r}'.format(
                name, kind, res.error or res.err))
            return False
    return True


def sweep(case, out, args, base, want, unknown):
    rng = random.Random(case['salt'])
    ops = [i[0] for i in base.fs.log if i[1] != 'out']
    if len(ops) > 60:
        ops = sorted(rng.sample(ops, 60))
    files = ['{}/{}/{}'.format(path, TAIL, file)
             for path, file, kind, _ in case['entries']]
    for no in ops:
        fault = list(case['fault'])
        if fault[0] == 'vanish':
            choices = files + [path + rest for path, _ in case['dirs']
                               for rest in ('', '/asterisklint', '/' + TAIL)]
            # Mostly those that are about to be looked at.
            near = [i for op in base.fs.log[no - 1:no + 3] for i in op[2]
                    if i in choices]
            if not choices:
                return
            fault = ['vanish', rng.choice(near if near and rng.random() < .7
                                          else choices)]
        plan = {no: fault}
        res = call(case, out, args, plan=cli.plan_of(plan))
        if res is None:
            return
        fired = [op for op in res.fs.log if op[3]]
        if not fired:
            continue
        affected = set()
        for op in fired:
            if fault[0] == 'short':
                continue
            for path in ([fault[1]] if fault[0] == 'vanish' else op[2]):
                affected |= names_of(path, case)
        if args == ['ls']:
            fine = judge_listing(res, want, unknown, affected, out)
        elif args[0] in affected:
            fine = True
        else:
            fine = judge_run(res, args[0], args[1:], want, unknown, out)
        if not fine:
            return tell(res, out, plan)


def names_of(path, case):
    """What cannot be relied upon if this is not there."""
    ret = set()
    path = plain(str(path))
    for top, file, kind, code in case['entries']:
        where = '{}/{}/{}'.format(top, TAIL, file)
        real = '/work/real/{}-{}'.format(top.replace('/', '_'), file)
        cache = '{}/{}/__pycache__'.format(top, TAIL)
        if (where + '/').startswith(path + '/') or path == real or (
                (path + '/').startswith(where + '/')) or (
                    path.startswith(cache)):
            ret.add(file[:-3])
    return ret


def shrink(case):
    for keep in core.shrink_list(case['entries']):
        yield dict(case, entries=keep)
    for keep in core.shrink_list(case['dirs']):
        paths = [i[0] for i in keep]
        yield dict(case, dirs=keep, entries=[
            i for i in case['entries'] if i[0] in paths], nodirs=[
                i for i in case['nodirs'] if i[0] in paths])
    for key, value in (('linked', []), ('home', '/home/user'),
                       ('fault', None), ('nodirs', []), ('twice', False),
                       ('first', False), ('args', []), ('euid', 0)):
        if case.get(key, value) != value:
            yield dict(case, **{key: value})
    if len(case['runs']) > 1:
        for one in case['runs']:
            yield dict(case, runs=[one])
