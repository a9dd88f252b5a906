"""C10: the same configuration gives the same output."""
import random
import re

from .. import conf, core, proc, vfs
from . import cli
from .c04 import IGNORES
from .rewrite import TOOLS

COMMANDS = ['dialplan-check', 'dialplan-check', 'dialplan-show',
            'modules-show', 'modules-show', 'ident-scan', 'ident-scan',
            'func_odbc-check', 'func_odbc-annotate', 'ls', 'canonical',
            'execif', 'unknown']
SIMILAR = ['destination', 'destinations', 'Destination', 'destinatoin',
           'callerid', 'calerid', 'CALLERID2', 'foobar', 'fobar', 'foobaz',
           'FooBar', 'ARG1', 'ARG2', 'sub-test', 'sub_test', 'subtest',
           'abcd', 'abcde', 'bcde', 'abce']


SAME = [['destination', 'Destination', 'DESTINATION', 'destinatioN'],
        ['foobar', 'fooBar', 'FooBar'], ['len', 'LEN', 'Len'],
        ['noop', 'NoOp', 'NOOP', 'Noop'], ['Dial', 'dial', 'DIAL']]
FORMS = ['exten => 77{},1,Set({}=1)', 'exten => 77{},1,NoOp(${{{}}})',
         'exten => 77{},1,Goto({},1,1)', 'exten => 77{},1({}),NoOp()',
         'exten => 77{},1,{}()', 'exten => 77{},1,NoOp(${{{}(x)}})',
         '[{1}]']


def prepare():
    cli.prepare()


def generate(rng, tier):
    case = {'cmd': rng.choice(COMMANDS), 'odbc': None, 'args': [],
            'ignore': rng.choice(IGNORES + [''] * 10), 'user': {},
            'variants': []}
    odbc, funcs = conf.func_odbc(rng, .3)
    if case['cmd'].startswith('func_odbc'):
        case['files'] = conf.spread(rng, odbc, 'func_odbc.conf')
    else:
        case['known'] = rng.random() >= .5
        if not case['known']:
            lines = conf.rich_dialplan(rng)
        else:
            lines = conf.dialplan(rng, .4, odbc_funcs=funcs)
        names, forms = SIMILAR, FORMS
        if rng.random() < .5:
            names = rng.choice(SAME)
            forms = rng.sample(FORMS, 2)
        for _ in range(rng.choice([0, 4, 12, 12])):
            lines.append(['l', similar(rng, names, forms), [], 1])
        if rng.random() < .6:
            case['odbc'] = conf.spread(rng, odbc, 'func_odbc.conf', nfiles=1)
        case['files'] = conf.spread(rng, lines, 'extensions.conf')
    if case['cmd'] == 'ident-scan' and rng.random() < .5:
        case['args'] = ['-v']
    if case['cmd'] == 'dialplan-show' and rng.random() < .5:
        case['args'] = ['--reverse']
    if rng.random() < .4 or case['cmd'] == 'ls':
        for name in rng.sample(['alpha', 'beta', 'ls', 'gamma-x', 'z9',
                                'modules-show', 'broken', 'nomain', '0a'],
                               rng.choice([1, 3, 6])):
            case['user'][name] = rng.choice([
                '"""About {}."""\ndef main(args, envs):\n    return 0\n',
                'def main(args, envs):\n    return 0\n',
                '"""No main."""\n', 'syntax error (\n',
                'import nosuchmodule\n', 'raise SystemExit(3)\n']).format(
                    name)
    kinds = ['dirs', 'dirs', 'reads', 'reads', 'heap', 'heap', 'heap', 'hash',
             'hash']
    case['variants'] = [[kind, i, rng.randrange(1 << 30)]
                        for i, kind in enumerate(kinds)]
    return case


def similar(rng, names, forms):
    return rng.choice(forms).format(rng.randrange(100), rng.choice(names))


def observe(case, variant):
    """What a run gives, as JSON."""
    out = core.Outcome()
    res = run_one(case, out, variant)
    if res is None:
        return {'violations': out.violations}
    return {'exit': res.exit, 'error': res.error, 'out': res.out,
            'err': res.err, 'ops': res.fs.opno}


def run_one(case, out, variant):
    kind, _, salt = variant or [None, 0, 0]
    rng = random.Random(salt)
    built = conf.Built(case['files'])
    fs = cli.filesystem(case['files'], built)
    if case['odbc']:
        cli.filesystem(case['odbc'], conf.Built(case['odbc']), fs=fs)
    where = '/home/user/.asterisklint/asterisklint/commands'
    if case['user']:
        fs.mkdirs(where)
        for name, text in case['user'].items():
            fs.put('{}/{}.py'.format(where, name), text.encode('utf-8'))
    fs.seal()
    fs.max_ops = 60000
    root = '{}/{}'.format(cli.CONFDIR, case['files'][0]['name'])
    args = list(case['args']) + [root]

    def setup():
        if kind == 'heap':
            # Have everything at other places, and in another order.
            junk = []
            for _ in range(rng.randrange(200, 3000)):
                junk.append(rng.choice([
                    object, dict, list, lambda: bytearray(rng.randrange(600)),
                    lambda: [None] * rng.randrange(60),
                    lambda: (lambda: 0), Junk, lambda: type('X', (), {})])())
            rng.shuffle(junk)
            del junk[::2]
            return junk
        return None

    def shuffled(*names):
        names = list(names[-1])
        rng.shuffle(names)
        return names

    if kind == 'dirs':
        fs.dir_order = shuffled
        vfs.real_listdir_hook[0] = shuffled
    elif kind == 'reads':
        vfs.fs_bufsize[0] = rng.choice([1, 7, 19, 64, 700])
        fs.plan = {i: ['short', rng.choice([1, 30, 60, 99])]
                   for i in range(1, 3000) if rng.random() < .7}
    try:
        if case['cmd'] in TOOLS:
            res = proc.run(out, fs, proc.script(TOOLS[case['cmd']]),
                           [TOOLS[case['cmd']], root], stdin=b'n\n',
                           setup=setup, collect=collect)
        elif case['cmd'] == 'ls':
            res = proc.cli(out, fs, ['ls'], setup=setup, collect=collect)
        else:
            res = proc.cli(out, fs, [case['cmd']] + args, setup=setup,
                           collect=collect)
    finally:
        vfs.fs_bufsize[0] = 8192
        vfs.real_listdir_hook[0] = None
    return res


class Junk:
    pass


def collect(state, ret):
    return None


def execute(case, out):
    if case['ignore']:
        proc.with_env(out, {'ALINT_IGNORE': case['ignore']}, cli.prepare,
                      execute_here, case)
    else:
        execute_here(case, out)


def execute_here(case, out):
    base = run_one(case, out, None)
    if base is None:
        return
    out.note(base.exit, base.error, base.out, base.err)
    out.sign(case['cmd'], base.exit, base.error, base.out, base.err)
    out.nontrivial = bool(base.out or base.err)
    have = {'exit': base.exit, 'error': base.error, 'out': base.out,
            'err': base.err}
    address = re.search(r' at 0x[0-9a-f]{4,}', base.out + base.err)
    if address:
        out.violate('address', 'a memory address in the output: {}'.format(
            (base.out + base.err)[max(0, address.start() - 100):
                                  address.end()]))
        return
    for variant in case['variants']:
        if variant[0] == 'hash':
            if case['ignore']:
                continue        # (they are made without)
            from ..helper import helper
            other = helper('C10', variant[1]).ask(case, variant)
            if 'violations' in other:
                out.violations += [tuple(i) for i in other['violations']]
                return
            out.runs += 1
            out.steps += other['ops']
            out.fault('other hash seed')
        else:
            res = run_one(case, out, variant)
            if res is None:
                return
            other = {'exit': res.exit, 'error': res.error, 'out': res.out,
                     'err': res.err}
            out.fault({'dirs': 'other directory order', 'reads':
                       'short reads (runs)', 'heap': 'other heap'}[
                           variant[0]])
        for key in ('exit', 'error', 'out', 'err'):
            if other[key] != have[key]:
                out.violate(variant[0], '{} differs: {} and {}'.format(
                    key, *first_difference(have[key], other[key])))
                out.trace.append('{} {}'.format(key, have[key]))
                out.trace.append('--- and with {}:'.format(variant))
                out.trace.append('{} {}'.format(key, other[key]))
                out.hint = {'variants': [variant]}
                return


def first_difference(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        return repr(a), repr(b)
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            return repr(x[:200]), repr(y[:200])
    return repr(a[-100:]), repr(b[-100:])


def shrink(case):
    if len(case['variants']) > 1:
        for one in case['variants']:
            yield dict(case, variants=[one])
    for name in case['user']:
        yield dict(case, user={k: v for k, v in case['user'].items()
                               if k != name})
    if case['odbc']:
        yield dict(case, odbc=None)
    if case['ignore']:
        yield dict(case, ignore='')
    yield from conf.shrink_files(case)
    for k, file in enumerate(case['files']):
        for keep in core.shrink_list(file['lines']):
            new = [dict(i) for i in case['files']]
            new[k]['lines'] = keep
            yield dict(case, files=new)
