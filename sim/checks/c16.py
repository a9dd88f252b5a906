"""C16: what the showing commands show is all of it, or they fail."""
import posixpath
import random
import re

from .. import conf, proc, vfs
from . import c10, cli
from .cli import READ_FAULTS

COMMANDS = ['dialplan-show', 'dialplan-show', 'modules-show', 'modules-show',
            'ident-scan', 'func_odbc-annotate', 'func_odbc-annotate', 'ls']
FAULTS = [i for i in READ_FAULTS if i[0] != 'short'] + [
    ['errno', 'ENOSPC'], ['errno', 'EPIPE'], ['errno', 'EIO'],
    ['errno', 'ENOSPC'], ['short', 30], ['sigint']]
ORACLE_OUT = ('EIO', 'ENOMEM', 'ESTALE', 'EACCES', 'EPERM', 'EINVAL', 'ENXIO',
              'EBADF', 'ENOSPC', 'EPIPE')

prepare = cli.prepare


def generate(rng, tier):
    cmd = rng.choice(COMMANDS)
    while True:
        case = c10.generate(rng, tier)
        if case['cmd'] == cmd:
            break
    del case['variants']
    if cmd != 'ls':
        case['user'] = {}
    if cmd == 'modules-show':
        case['odbc_mode'] = rng.choice(['auto', 'auto', 'off', 'given'])
        if not case['odbc'] and case['odbc_mode'] == 'given':
            case['odbc_mode'] = 'off'
    case['ignore'] = ''
    case['bufsize'] = rng.choice([8192, 64, 700])
    case['faults'] = rng.sample(FAULTS, 2)
    case['seed'] = rng.randrange(1 << 30)
    return case


class Setup:
    def __init__(self, case, without=()):
        self.case = case
        self.built = conf.Built(case['files'])
        fs = self.fs = cli.filesystem(case['files'], self.built)
        self.args = list(case['args'])
        mode = case.get('odbc_mode', 'auto')
        self.odbc = None
        if case['odbc']:
            base = '/srv/odbc' if mode == 'given' else cli.CONFDIR
            cli.filesystem(case['odbc'], conf.Built(case['odbc']), base, fs)
            self.odbc = '{}/{}'.format(base, case['odbc'][0]['name'])
            if mode == 'given':
                self.args += ['--func-odbc', self.odbc]
        if mode == 'off':
            self.args += ['--func-odbc', '']
        where = '/home/user/.asterisklint/asterisklint/commands'
        if case['user']:
            fs.mkdirs(where)
            for name, text in case['user'].items():
                fs.put('{}/{}.py'.format(where, name), text.encode('utf-8'))
        self.root = '{}/{}'.format(cli.CONFDIR, case['files'][0]['name'])
        self.included = {posixpath.join(cli.CONFDIR, i['name'])
                         for i in case['files'][1:]} - {self.root}
        for path in without:
            fs.unlink(path)
        fs.seal()
        fs.max_ops = 60000

    def run(self, out, plan):
        self.fs.plan = cli.plan_of(plan)
        args = [self.case['cmd']] + self.args
        if self.case['cmd'] != 'ls':
            args.append(self.root)
        else:
            args = ['ls']
        vfs.fs_bufsize[0] = self.case['bufsize']
        try:
            run = proc.cli(out, self.fs, args)
        finally:
            vfs.fs_bufsize[0] = 8192
        if run is not None:
            out.note(run.exit, run.error, run.out, run.err, run.fs.log)
        return run


def applies(case, fault, op):
    name = op[1]
    if fault[0] == 'short':
        return name in ('read', 'out')
    if case['cmd'] == 'ls' and name != 'out' and fault[0] == 'errno':
        return False        # (see C13)
    if fault[0] != 'errno':
        return True
    if name == 'close':
        return fault[1] in ('EIO', 'ENOMEM')
    if name == 'out':
        return fault[1] in ORACLE_OUT
    if name == 'read':
        return fault[1] not in ('EMFILE', 'ENFILE', 'ELOOP', 'ENAMETOOLONG',
                                'ENOENT', 'ENOSPC', 'EPIPE')
    return fault[1] not in ('ENOSPC', 'EPIPE')


def execute(case, out):
    setup = Setup(case)
    base = setup.run(out, {})
    if base is None:
        return
    out.sign(case['cmd'], base.exit, base.error, base.out)
    if base.exit not in (0, 1) or base.error:
        out.violate('error', 'exit {}: {}'.format(base.exit, base.error))
        cli.describe(out, base, {})
        return
    bad = undisturbed(case, setup, base)
    if bad:
        out.violate(*bad)
        cli.describe(out, base, {})
        out.trace.append('stdout: {}'.format(base.out))
        out.hint = {'only': {}}
        return
    out.nontrivial = len(base.out) > 20
    if 'only' in case:
        plans = [case['only']]
    else:
        plans = [{str(op[0]): fault} for fault in case['faults']
                 for op in base.fs.log if applies(case, fault, op)]
        if len(plans) > 120:
            plans = random.Random(case['seed']).sample(plans, 120)
    for plan in plans:
        run = Setup(case).run(out, plan)
        if run is None:
            out.hint = {'only': plan}
            return
        bad = judge(case, setup, base, run, out)
        fired = [i for i in run.fs.log if i[3]]
        if fired:
            out.sign(fired[0][1], run.exit, run.fs.fired, run.out == base.out)
        if bad:
            out.violate(*bad)
            cli.describe(out, run, plan)
            out.trace.append('stdout: {}'.format(run.out))
            out.trace.append('without: exit {} {}'.format(base.exit, base.out))
            out.hint = {'only': plan}
            return


def undisturbed(case, setup, base):
    """Was all of it read, and is shown what is known to be there?"""
    if base.err:
        return 'stderr', 'nothing is wrong, and on standard error there ' \
            'is {!r}'.format(base.err[-200:])
    if case['cmd'] == 'ls':
        return None
    paths = ['{}/{}'.format(cli.CONFDIR, case['files'][k]['name'])
             for k in setup.built.reached]
    if setup.odbc and case['cmd'] == 'modules-show' and (
            case['odbc_mode'] != 'off'):
        paths.append(setup.odbc)
    for path in paths:
        node = base.fs.node(path)
        if node.ino not in base.fs.read_to_end:
            return 'unread', 'exit {}, and {} was read up to byte {} of {} ' \
                'only'.format(base.exit, path,
                              base.fs.readpos.get(node.ino, 0),
                              len(node.data))
    for text, times in sorted(known(case, setup).items()):
        if base.out.count(text) < times:
            return 'shown', 'exit {}, and {!r} is shown {} time(s), not ' \
                '{}'.format(base.exit, text, base.out.count(text), times)
    return None


def known(case, setup):
    """{what is shown: how often at least}, for lines without any issue."""
    ret = {}
    if not case.get('known', True):
        return ret
    fresh = False
    for k, no in setup.built.order:
        line = case['files'][k]['lines'][no - 1]
        if line[0] == 'b':
            continue
        kind, text, issues, n = line[:4]
        if kind == 'i' or n <= 1 and case['cmd'] != 'ident-scan' or issues:
            fresh = False
            continue
        if case['cmd'] == 'func_odbc-annotate':
            if kind == 'h':
                ret['_{}\n-- .\n'.format(text[1:-1])] = 1
            elif text.startswith('readsql=') and fresh:
                key = '-- FUNCTION TYPE: read\n'
                ret[key] = ret.get(key, 0) + 1
            fresh = kind == 'h' or text == 'dsn=x' and fresh
            continue
        if case['cmd'] == 'ident-scan' and '-v' in case['args'] and (
                re.match(r'\[ctx\d\]$', text)):
            ret['\n  {}\n'.format(text[1:-1])] = 1
        match = re.match(r'exten => (\d+),1(\(\w+\))?,(\w+)\(', text)
        if not match:
            continue
        if case['cmd'] == 'dialplan-show':
            ret["  '{}' => ".format(match.group(1))] = 1
        elif case['cmd'] == 'modules-show':
            ret[' {}()'.format(match.group(3))] = 1
        elif case['cmd'] == 'ident-scan' and '-v' in case['args'] and (
                match.group(2) and n > 1):
            ret['\n  {}\n'.format(match.group(2)[1:-1])] = 1
    return ret


def failing(run, names):
    return {posixpath.normpath(str(i[2][0])) for i in run.fs.log
            if i[3] and i[1] in names}


def judge(case, setup, base, run, out):
    fired = [i for i in run.fs.log if i[3]]
    if not fired:
        return None
    op, kind = fired[0], run.fs.fired[0]
    same = (run.exit, run.out) == (base.exit, base.out)
    if kind.startswith('short'):
        return None if same else (
            'short', 'with a short read or write: exit {} and {!r}'.format(
                run.exit, run.out[-200:]))
    if op[1] == 'out':
        # Nobody has seen all of it. (Unless it was interrupted afterwards.)
        if run.exit == 0 and not (
                kind.startswith('sigint') and run.out == base.out):
            return 'output', 'success, although the output failed: {}'.format(
                op)
        if run.exit == base.exit and not run.error and not (
                kind.startswith('sigint')) and '<stderr>' not in op[2]:
            return 'output', 'exit {} as if nothing was wrong, although the ' \
                'output failed: {}'.format(run.exit, op)
        return None
    if same and not run.error:
        if op[1] == 'read' and not kind.startswith('sigint') and (
                case['cmd'] != 'ls'):
            return 'unread', 'success, although {}'.format(op)
        return None
    if op[1] in ('open', 'stat', 'lstat', 'access', 'readlink') and (
            not kind.startswith('sigint')):
        # Files of which the include fails: as if they were not there.
        gone = failing(run, ('open',)) & setup.included
        if setup.odbc in failing(run, ('stat', 'lstat', 'access')):
            gone.add(setup.odbc)
        for path in gone:
            if sum(1 for i in base.fs.log if i[1] == 'open' and
                   posixpath.normpath(str(i[2][0])) == path) > 1:
                out.probe('included twice')
                return None
        if gone:
            want = Setup(case, gone).run(out, {})
            if want is None:
                return None
            out.probe('include fails')
            if (run.exit, run.out) == (want.exit, want.out):
                return None
            if run.exit == 0:
                return 'include', 'the include of {} failed: exit {} and ' \
                    '{!r}, but if it is not there: {} {!r}'.format(
                        sorted(gone), run.exit, run.out[-200:], want.exit,
                        want.out[-200:])
    if run.exit == 0:
        return 'part', 'success, although {}: {!r}'.format(
            op, run.out[-200:])
    if not run.error and run.exit == base.exit and run.out != base.out:
        return 'part', 'exit {}, no error, and not all is shown although ' \
            '{}: {!r}'.format(run.exit, op, run.out[-200:])
    if run.out and not base.out.startswith(run.out):
        return 'wrong', 'it failed with {}, and what it had shown is not what ' \
            'there is: {!r}'.format(run.error, run.out[-200:])
    if not run.err and not run.error:
        return 'silent', 'exit {}, and no message, although {}'.format(
            run.exit, op)
    return None


def shrink(case):
    yield from conf.shrink_files(case)
    for name in case['user']:
        yield dict(case, user={k: v for k, v in case['user'].items()
                               if k != name})
    if case['odbc']:
        yield dict(case, odbc=None, odbc_mode='off')
    if case['bufsize'] != 8192:
        yield dict(case, bufsize=8192)
    for fault in case['faults']:
        if len(case['faults']) > 1:
            yield dict(case, faults=[fault])
