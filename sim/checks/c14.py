"""C14: loading the known apps and functions can fail and be retried."""
import errno
import io
import os
import sys

from .. import core, proc, vfs, words
from ..core import REPO

VERSIONS = ['v11', 'v13']
KNOWN = {'noop', 'dial', 'goto', 'set', 'hangup'}
EXTRA = ['Nosuch', 'DIal', 'noop', 'Unknownapp', 'x']
ODBC = ['ODBC_ALPHA', 'ODBC_BETA_2', 'ODBC_G', 'PJSIP_HEADER', 'MY_FUN']
EXTRA_FUNCS = ['NOSUCH', 'len', 'Callerid', 'X_Y', 'odbc_alpha'] + ODBC
EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'EIO': errno.EIO, 'EMFILE': errno.EMFILE, 'EACCES': errno.EACCES,
       'ENOENT': errno.ENOENT, 'ImportError': ImportError,
       'SyntaxError': SyntaxError}
PACKAGE = os.path.join(REPO, 'asterisklint') + '/'


def prepare():
    proc.preload('asterisklint.func_odbc', 'asterisklint.dialplan')
    # The apps and functions themselves are loaded by the simulated process.
    proc.precompile('app', 'func')


def generate(rng, tier):
    ops = []
    if rng.random() < .2:
        # A function that was unknown comes to be known.
        names = rng.sample(ODBC, 3)
        ops = [rng.choice([['funcs', names], ['parse', ['NoOp'], names]]),
               ['odbc', names[1:]],
               rng.choice([['funcs', names], ['parse', ['NoOp'], names]])]
    for _ in range(rng.choice([1, 2, 3, 4]) if not ops else 0):
        r = rng.random()
        if r < .25:
            ops.append(['select', rng.choice(
                VERSIONS * 5 + [None] * 4 + ['v99'])])
        elif r < .35:
            ops.append(['apps', sample(rng, words.APPS, EXTRA)])
        elif r < .45:
            ops.append(['funcs', sample(rng, words.FUNCS, EXTRA_FUNCS)])
        elif r < .5:
            ops.append(['list'])
        elif r < .65:
            ops.append(['odbc', rng.sample(ODBC, rng.choice([1, 2, 3]))])
        else:
            ops.append(['parse', sample(rng, words.APPS, EXTRA),
                        sample(rng, words.FUNCS, EXTRA_FUNCS)])
    fault = [rng.choice(['line', 'line', 'line', 'load', 'loaded', 'listdir']),
             rng.choice(sorted(EXC))]
    if fault[0] in ('line', 'loaded'):
        fault[1] = rng.choice(['KeyboardInterrupt', 'MemoryError'])
    elif fault == ['listdir', 'SyntaxError']:
        fault[1] = 'EIO'
    return {'ops': ops, 'fault': fault, 'salt': rng.randrange(1 << 30),
            'again': rng.choice([1, 1, 2])}


def sample(rng, names, extra):
    ret = rng.sample(names, rng.choice([2, 10, 30]))
    ret += rng.sample(extra, rng.choice([0, 2, 5]))
    rng.shuffle(ret)
    return ret


def text_of(apps, funcs):
    lines = ['[general]', '[globals]', '[default]', 'exten => s,1,NoOp()']
    lines += [' same => n,{}()'.format(i) for i in apps]
    lines += [' same => n,NoOp(${{{}(a)}})'.format(i) for i in funcs]
    lines += [' same => n,Set({}(a)=1)'.format(i) for i in funcs[:5]]
    return '\n'.join(lines).encode('ascii') + b'\n'


def odbc_text(names):
    lines = []
    for name in names:
        prefix, name = name.split('_', 1)
        lines += ['', '[{}]'.format(name)]
        if prefix != 'ODBC':
            lines += ['prefix={}'.format(prefix)]
        lines += ['readhandle=dsn', 'readsql=SELECT 1']
    return '\n'.join(lines[1:]).encode('ascii') + b'\n'


# -- the process ------------------------------------------------------------

class Injector:
    """
    Counts what can fail; and has the one with the given number fail, each of
    the first few times that it gets there.
    """
    def __init__(self, kind, name, count, times):
        self.kind, self.exc, self.count = kind, EXC[name], count
        self.seen = 0
        self.fired = 0
        self.times = times

    def hit(self, kind, path=None):
        if kind != self.kind:
            return
        self.seen += 1
        if self.count is not None and self.seen == self.count:
            self.fire(path)

    def fire(self, path=None):
        self.fired += 1
        sys.settrace(None)
        if isinstance(self.exc, int):
            raise OSError(self.exc, os.strerror(self.exc), path)
        raise self.exc('injected')

    def listdir(self, path, names):
        self.hit('listdir', path)
        return names

    def load(self, when, path):
        self.hit(when, path)

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PACKAGE):
            return None
        if event == 'line':
            self.hit('line')
        return self.trace

    def arm(self):
        self.seen = 0
        vfs.real_listdir_hook[0] = self.listdir
        proc.load_hook[0] = self.load
        if self.kind == 'line':
            sys.settrace(self.trace)

    def disarm(self):
        sys.settrace(None)
        vfs.real_listdir_hook[0] = None
        proc.load_hook[0] = None


def perform(op):
    from asterisklint import FileDialplanParser
    from asterisklint.application import AppLoader
    from asterisklint.defines import MessageDefManager
    from asterisklint.varfun import FuncLoader
    from asterisklint.version import AsteriskVersion
    if op[0] == 'select':
        AsteriskVersion(op[1])
        return 'selected'
    if op[0] == 'list':
        return sorted(AsteriskVersion().list_app_mods() +
                      AsteriskVersion().list_func_mods())
    if op[0] == 'apps':
        loader = AppLoader()
        return [describe(loader.get(i.lower())) for i in op[1]]
    if op[0] == 'funcs':
        loader = FuncLoader()
        return [describe(loader.get(i.lower())) for i in op[1]]
    MessageDefManager.reset()
    if op[0] == 'odbc':
        from asterisklint import FileFuncOdbcParser as Parser
        data = odbc_text(op[1])
    else:
        Parser, data = FileDialplanParser, text_of(op[1], op[2])

    def opener(name):
        fp = io.BytesIO(data)
        fp.name = name
        return fp

    parser = Parser(opener=opener)
    parser.include('x.conf')
    elements = list(parser)
    if op[0] == 'odbc':
        ret = [i.name for i in elements]
    else:
        elements[0].walk_jump_destinations()
        ret = []
    for name, msgs in sorted(MessageDefManager.raised.items()):
        ret += [[name, i.where.lineno, i.message.format(**i.fmtkwargs)]
                for i in msgs]
    return ret


def describe(one):
    return [type(one).__module__, type(one).__name__, one.name, one.module]


def driver(ops, at, injector):
    def entry():
        from asterisklint.defines import MessageDefManager
        MessageDefManager.muted = True
        results = []
        for n, op in enumerate(ops):
            tries = injector.times if injector and n == at else 0
            for attempt in range(tries + 1):
                if attempt < tries:
                    injector.arm()
                try:
                    result = perform(op)
                except BaseException as exc:
                    result = ['failed', type(exc).__name__, str(exc)]
                if attempt < tries:
                    injector.disarm()
                results.append([n, attempt, attempt < tries, result])
        return {'results': results, 'seen': injector and injector.seen,
                'fired': injector and injector.fired}
    return entry


def run(out, ops, at=None, injector=None):
    fs = vfs.FS()
    fs.mkdirs('/home/user')
    fs.mkdirs('/work')
    fs.cwd = '/work'
    fs.seal()
    res = proc.run(out, fs, driver(ops, at, injector), ['/usr/bin/test'])
    if res is None:
        return None
    if res.error:
        out.violate('died', '{} {}'.format(res.error, res.site))
        out.trace.append(res.trace or '')
        return None
    out.note(res.extra)
    return res.extra


def model(ops):
    """The version for each, or None if it cannot be selected."""
    version, ret = None, []
    for op in ops:
        want = op[1] if op[0] == 'select' else None
        if version is None:
            version = want or 'v13'
        ret.append(None if want and want != version else version)
    return ret


def execute(case, out):
    ops = case['ops']
    versions = model(ops)
    alone = []
    for n, (op, version) in enumerate(zip(ops, versions)):
        if op[0] == 'select':
            alone.append('selected' if version else ['failed'])
            continue
        if version == 'v99':
            alone.append(['failed'])    # there is no such thing
            continue
        # A fresh process, in which that version is selected at the start.
        before = [i for i in ops[:n] if i[0] == 'odbc']
        got = run(out, [['select', version]] + before + [op])
        if got is None:
            return
        result = got['results'][-1][3]
        if result[:1] == ['failed']:
            out.violate('load', 'in a fresh process with {}, {} fails: {}'
                        .format(version, op[0], result))
            return
        if not sane(op, result, before):
            out.violate('load', 'in a fresh process with {}, {} gives {}'
                        .format(version, op, result))
            return
        alone.append(result)
        got = run(out, before + [op]) if version == 'v13' else None
        if got and got['results'][-1][3] != result:
            out.violate('default', 'without selecting v13, {} differs'.format(
                op[0]))
            return
        if out.violations:
            return
    got = run(out, ops)
    if got is None or not compare(ops, alone, got, out):
        return
    # The whole of it.
    kind, name = case['fault']
    first = [i for i, op in enumerate(ops) if op[0] != 'select']
    if not first:
        return
    out.nontrivial = True
    rng = core.case_rng(0, 'C14', case['salt'])
    at = rng.choice(first[:1] * 3 + first)
    got = run(out, ops, at, Injector(kind, name, None, 1))
    if got is None or not compare(ops, alone, got, out):
        return
    total = got['seen']
    points = list(range(1, total + 1))
    if len(points) > 12:
        points = sorted(set(rng.sample(points[:1000], 4) + rng.sample(
            points, 8)))
    for count in points:
        got = run(out, ops, at, Injector(kind, name, count, case['again']))
        if got is None:
            return
        if got['fired']:
            out.fault('{}:{}'.format(kind, name), got['fired'])
        if not compare(ops, alone, got, out):
            out.trace.append('{} fails with {}, at {} of {}'.format(
                kind, name, count, total))
            return


def sane(op, result, before):
    defined = {name for i in before for name in i[1]}
    if op[0] == 'funcs':
        return all((one[2] == name) == (name in defined)
                   for name, one in zip(op[1], result)
                   if name in ODBC and name != 'PJSIP_HEADER')
    if op[0] == 'odbc':
        return result == [i.split('_', 1)[1] for i in op[1]]
    if op[0] == 'list':
        return len(result) > 20
    if op[0] == 'apps':
        return all(one[2].lower() == name.lower() or (
            name.lower() not in KNOWN) for name, one in zip(op[1], result))
    if op[0] == 'parse':
        missing = [i[1] for i in result if i[0] == 'E_APP_MISSING']
        for no, name in enumerate(op[1]):
            if name.lower() in KNOWN and no + 5 in missing:
                return False
            if name == 'Nosuch' and no + 5 not in missing:
                return False
    return True


def compare(ops, alone, got, out):
    for n, attempt, armed, result in got['results']:
        failed = result[:1] == ['failed']
        want = alone[n]
        if ops[n][0] == 'select':
            if want == ['failed']:
                if not failed:
                    out.violate('select', 'operation {} selects another '
                                'version'.format(n))
                    return False
            elif result != want:
                out.violate('select', 'operation {} {}: {}'.format(
                    n, ops[n], result))
                return False
            continue
        out.sign(ops[n][0], attempt, armed, failed, got['fired'])
        if want == ['failed'] and failed:
            continue
        if armed and failed and got['fired']:
            continue
        if armed and got['fired'] and result != want:
            out.violate('silent', 'operation {} {} was disturbed, did not '
                        'fail, and gives another result: {}'.format(
                            n, ops[n][0], first_difference(result, want)))
            return False
        if result != want:
            out.violate('retry' if got['fired'] else 'history',
                        'operation {} {}, attempt {}: {}'.format(
                            n, ops[n][0], attempt + 1,
                            first_difference(result, want)))
            return False
    return True


def first_difference(a, b):
    if a[:1] == ['failed']:
        return a
    for x, y in zip(a, b):
        if x != y:
            return '{} and not {}'.format(x, y)
    return '{} and not {} results'.format(len(a), len(b))


def shrink(case):
    for keep in core.shrink_list(case['ops']):
        if keep:
            yield dict(case, ops=keep)
    if case['again'] > 1:
        yield dict(case, again=1)
    for n, op in enumerate(case['ops']):
        for k in range(1, len(op)):
            if isinstance(op[k], list) and len(op[k]) > 1:
                for keep in core.shrink_list(op[k]):
                    new = list(op)
                    new[k] = keep
                    yield dict(case, ops=case['ops'][:n] + [new] +
                               case['ops'][n + 1:])
