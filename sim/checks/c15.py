"""C15: whatever is stored, a check ends with a report."""
import posixpath
import re

from .. import conf, core, proc, vfs
from . import cli

prepare = cli.prepare

SYNTAX = ['${', '}', '$[', ']', '(', ')', ',', ';', '"', '\\', '=', '=>', '[',
          '#include ', '\n', '\r', '\r\n', ' ', '\t', '|', '&', '?', ':', '@',
          '!', '~', '_', '.', '-', 'exten => ', 'same => n,', '#exec x\n',
          ';--', '--;', '\\;', '0', 'n(', '+', '+=', '>', '<', '%s', '{0}']
WHOLE = ['utf16', 'latin1', 'bom', 'nul_end', 'cr', 'empty', 'gz']
NEST = [['${', '}'], ['$[', ']'], ['${LEN(', ')}'], ['ExecIf(1?', ')'],
        ['ExecIf(1?', ''], ['GotoIf(1?', ')'], ['(', ')'], ['[', ']'],
        ['{', '}'], ['"', ''], ['\\', ''], [';', ''], ['Set(a=${', ':1})'],
        ['#include "', ''], ['_[', '-9]'], ['~', ''], ['!', '']]
COMMANDS = ['dialplan-check'] * 7 + ['func_odbc-check'] * 2 + [
    'dialplan-show', 'modules-show', 'vg dialplan-check', 'vg dialplan-check',
    'vg func_odbc-check']


# What may look like a number.
DIGITS = ['\u00b2', '\u0663', '\u00bd', '\u4e00', '\u2460', '\uff11', '-1', '0',
          '00', '007', '+1', '1.5', '1e3', '0x1', '9' * 30, '9' * 5000, '1_0',
          ' 1', '1\u00a0', '', '-', '1-', 'n+1', 'n-5', 's+1', '1+1', 'n', 's',
          'n+\u00b2', '\udcb2', '1\0', 'hint+1', '2147483648']
NUMBER = re.compile(rb'\d+')
WORD = re.compile(rb'\w+')


def generate(rng, tier):
    case = {'cmd': rng.choice(COMMANDS), 'odbc': None,
            'bufsize': rng.choice([64, 8192])}
    odbc, funcs = conf.func_odbc(rng, rng.choice([0, .3]))
    if case['cmd'].endswith('func_odbc-check'):
        case['files'] = conf.spread(rng, odbc, 'func_odbc.conf')
    else:
        if rng.random() < .6:
            lines = conf.rich_dialplan(rng)
        else:
            lines = conf.dialplan(rng, rng.choice([0, .2, .5]),
                                  odbc_funcs=funcs)
        if rng.random() < .3:
            case['odbc'] = conf.spread(rng, odbc, 'func_odbc.conf', nfiles=1)
        case['files'] = conf.spread(rng, lines, 'extensions.conf')
    case['damages'] = [
        [damage(rng, len(case['files']), bool(case['odbc']))
         for _ in range(rng.choice([1, 1, 1, 2, 4, 8]))]
        for _ in range(30)]
    return case


def damage(rng, nfiles, odbc):
    """[kind, file, offset, length, what]"""
    k = rng.randrange(nfiles + odbc)
    offset = rng.randrange(1 << 20)
    length = rng.choice([1, 1, 2, 4, 16, 64, 512])
    kind = rng.choice(['flip', 'flip', 'zero', 'torn', 'drop', 'drop',
                       'repeat', 'repeat', 'moved', 'moved', 'garbage',
                       'syntax', 'syntax', 'syntax', 'syntax', 'insert',
                       'whole', 'nest', 'digits', 'digits', 'swap'])
    what = 0
    if kind == 'flip':
        what = rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
    elif kind == 'repeat':
        what = rng.choice([1, 1, 2, 50])
    elif kind == 'moved':
        what = rng.randrange(1 << 20)
    elif kind in ('garbage', 'insert'):
        what = bytes(rng.randrange(256) for _ in range(min(
            length, 64))).hex()
    elif kind == 'syntax':
        what = ''.join(rng.choice(SYNTAX) for _ in range(rng.choice(
            [1, 1, 1, 2, 3])))
        length = rng.choice([0, 0, 0, 1, 2])
    elif kind == 'whole':
        what = rng.choice(WHOLE)
    elif kind == 'digits':
        what = rng.choice(DIGITS)
    elif kind == 'nest':
        what = rng.choice(NEST) + [rng.choice([5, 60, 400, 1200])]
        length = rng.choice([0, 0, 1, 8])
    return [kind, k, offset, length, what]


def inflict(data, spec):
    """(data, offset of the first difference)"""
    kind, _, offset, length, what = spec
    if kind == 'whole':
        text = data.decode('utf-8', 'replace')
        new = {'utf16': lambda: text.encode('utf-16', 'replace'),
               'latin1': lambda: text.replace('a', '\u00e4').encode(
                   'latin-1', 'replace'),
               'bom': lambda: b'\xef\xbb\xbf' + data,
               'nul_end': lambda: data + b'\0' * 512,
               'cr': lambda: data.replace(b'\n', b'\r'),
               'empty': lambda: b'',
               'gz': lambda: b'\x1f\x8b\x08\0' + data[::-1]}[what]()
        return new, len(data) if what == 'nul_end' else 0
    offset %= len(data) + 1
    end = min(len(data), offset + length)
    block = data[offset:end]
    if kind == 'flip':
        block = bytes(i ^ what for i in block)
    elif kind == 'zero':
        block = b'\0' * len(block)
    elif kind == 'torn':
        return data[:offset], offset
    elif kind == 'drop':
        block = b''
    elif kind == 'repeat':
        block *= 1 + what
    elif kind == 'moved':
        start = what % (len(data) + 1)
        block = data[start:start + length]
    elif kind == 'garbage':
        block = bytes.fromhex(what)[:len(block)]
    elif kind == 'insert':
        block = bytes.fromhex(what) + block
    elif kind == 'nest':
        begin, end_, times = what
        block = (begin.encode() * times + block + end_.encode() * times)
    elif kind == 'syntax':
        block = what.encode('utf-8')
    elif kind in ('digits', 'swap'):
        # The next number, or word, is another one.
        match = (NUMBER if kind == 'digits' else WORD).search(data, offset)
        if match:
            offset, end = match.span()
        if kind == 'digits':
            block = what.encode('utf-8', 'surrogateescape')
        else:
            words = WORD.findall(data)
            block = words[length * 7919 % len(words)] if words else b''
    return data[:offset] + block + data[end:], offset


class Setup:
    def __init__(self, case, damages):
        self.case = case
        self.built = conf.Built(case['files'])
        self.odbc = conf.Built(case['odbc']) if case['odbc'] else None
        n = len(case['files'])
        self.first = {}         # file number: offset of the first damage
        for spec in damages:
            k = spec[1]
            if k < n:
                datas, i = self.built.data, k
            elif self.odbc:
                datas, i, k = self.odbc.data, 0, n
            else:
                continue
            datas[i], offset = inflict(datas[i], spec)
            self.first[k] = min(offset, self.first.get(k, offset))
        self.fs = cli.filesystem(case['files'], self.built)
        cli.contrib(self.fs, case['cmd'])
        if self.odbc:
            cli.filesystem(case['odbc'], self.odbc, fs=self.fs)

    def run(self, out):
        vfs.fs_bufsize[0] = self.case['bufsize']
        self.fs.seal()
        args = ['{}/{}'.format(cli.CONFDIR, self.case['files'][0]['name'])]
        res = proc.cli(out, self.fs, self.case['cmd'].split() + args)
        vfs.fs_bufsize[0] = 8192
        if res is not None:
            out.note(res.exit, res.error, res.fs.opno, res.err, res.out)
        return res

    def lines_before(self):
        """The (path, line) of the lines which are read before any damage."""
        ret = set()
        parts = []
        if self.odbc:
            parts.append((self.odbc, self.case['odbc'],
                          len(self.case['files'])))
        parts.append((self.built, self.case['files'], 0))
        for built, files, base in parts:
            for k, no in built.order:
                if built.ends[k][no - 1] > self.first.get(base + k, 1 << 30):
                    return ret
                if (no == len(built.ends[k]) and base + k in self.first and
                        not files[k]['last']):
                    return ret      # it goes on
                ret.add((posixpath.join(
                    cli.CONFDIR, files[k]['name']), no))
                if (no == len(built.ends[k]) and base + k in self.first):
                    return ret      # more has been appended
        return ret


def execute(case, out):
    base = Setup(case, []).run(out)
    if base is None:
        return
    bad = sane(case, base)
    if bad:
        report(out, base, [], bad)
        out.hint = {'damages': []}
        return
    found = cli.normalise(conf.parse_report(base.err)[0])
    out.nontrivial = True
    for n, damages in enumerate(case['damages']):
        setup = Setup(case, damages)
        run = setup.run(out)
        if run is None:
            out.hint = {'damages': [damages]}
            return
        for spec in damages:
            out.fault('stored_' + (
                spec[4] if spec[0] == 'whole' else spec[0]))
        bad = sane(case, run)
        now = cli.normalise(conf.parse_report(run.err)[0])
        # (vg folds lines, and a second context wipes the first.)
        before = (() if case['cmd'].startswith('vg ') else
                  setup.lines_before())
        for (name, no, class_), count in sorted(found.items()):
            if ((name, no) in before and class_ not in conf.LATE and
                    now.get((name, no, class_), 0) < count):
                bad.append(('lost', 'damage after that hides {}:{} {}'.format(
                    name, no, class_)))
        out.sign(sorted({k[2] for k in now}), run.exit)
        if bad:
            report(out, run, damages, bad)
            out.hint = {'damages': [damages]}
            return


def sane(case, run):
    bad = []
    if run.error or run.exit not in (0, 1):
        bad.append(('internal error', '{} in {} (exit {})'.format(
            run.error, run.site, run.exit)))
        return bad
    found, rest = conf.parse_report(run.err)
    if not case['cmd'].endswith('check'):
        return bad
    # (Line breaks that are data are part of the lines of the report.)
    if 'Traceback' in run.err:
        bad.append(('internal error', run.err[-400:]))
    if run.exit != (1 if found else 0):
        bad.append(('exit', 'exit {} with a report of {}'.format(
            run.exit, run.err[-300:] or 'nothing')))
    return bad


def report(out, run, damages, bad):
    for kind, text in bad[:3]:
        out.violate(kind, text)
    out.trace.append('damages {}'.format(damages))
    for node in run.fs.nodes() if hasattr(run.fs, 'nodes') else ():
        out.trace.append(repr(node))
    cli.describe(out, run, {})


def shrink(case):
    if len(case['damages']) > 1:
        for one in case['damages']:
            yield dict(case, damages=[one])
    elif case['damages']:
        for fewer in core.shrink_list(case['damages'][0]):
            yield dict(case, damages=[fewer])
    if case['odbc'] and 'ODBC_F' not in str(case['files']):
        yield dict(case, odbc=None)
    yield from conf.shrink_files(case)
