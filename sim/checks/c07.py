"""C07: includes are as good as having it all in one file."""
import posixpath

from .. import conf, proc, vfs
from . import cli

prepare = cli.prepare

FAULTS = ['ENOENT', 'EACCES', 'EMFILE', 'ENFILE', 'EPERM', 'ELOOP', 'ESTALE',
          'ENOMEM', 'EISDIR', 'ENOTDIR', 'EIO', 'ENXIO', 'ETIMEDOUT', 'EINVAL',
          'EOVERFLOW', 'ENODEV', 'EREMOTEIO', 'ENAMETOOLONG']
ABSENT = ['no', 'no', 'directory', 'dangling', 'loop', 'denied', 'below']
COMMANDS = ['dialplan-check'] * 5 + ['func_odbc-check', 'dialplan-show',
                                     'dialplan-show', 'modules-show']
CALLS = ['abs', 'cwd', 'rel', 'updir']


def generate(rng, tier):
    case = {'cmd': rng.choice(COMMANDS), 'call': rng.choice(CALLS),
            'bufsize': rng.choice([32, 8192]), 'error': rng.choice(FAULTS),
            'missing': []}
    if case['cmd'] == 'func_odbc-check':
        lines, root = conf.func_odbc(rng, rng.choice([0, .3]))[0], (
            'func_odbc.conf')
    else:
        if rng.random() < .5:
            lines = conf.rich_dialplan(rng)
        else:
            lines = conf.dialplan(rng, rng.choice([0, .2, .5]))
        root = 'extensions.conf'
    files = case['files'] = conf.spread(rng, lines, root, rng.choice(
        [1, 2, 2, 3, 4, 6, 7]))
    # Include a file once more (it does not lead back to where that is).
    for _ in range(rng.choice([0, 0, 1, 2])):
        k = rng.randrange(len(files))
        target = rng.randrange(len(files) + 1)
        if target <= k or (target < len(files) and k in reach(
                files, target)):
            continue
        at = rng.randrange(len(files[k]['lines']) + 1)
        files[k]['lines'].insert(at, ['i', [target, 'quote', rng.choice(
            ['#include ', '#tryinclude '])], [], 0])
    if rng.random() < .2 and len(files) > 1:
        case['missing'] = [rng.randrange(1, len(files))]
        case['absent'] = rng.choice(ABSENT)
    return case


def reach(files, k):
    ret, todo = set(), [k]
    while todo:
        k = todo.pop()
        if k not in ret and k < len(files):
            ret.add(k)
            todo += [i[1][0] for i in files[k]['lines'] if i[0] == 'i']
    return ret


class Flat:
    """All in one file: the bytes, and where each line came from."""
    def __init__(self, case, skip=None):
        self.files = case['files']
        self.missing = set(case['missing'])
        self.skip, self.count = skip, -1
        self.lines, self.origin = [], [None]
        self.warnings = {}
        self.opened = []
        self.open(0, None)
        self.data = b''.join(self.lines)

    def open(self, k, where):
        """False if it cannot be."""
        if k >= len(self.files):
            return False
        self.count += 1
        self.opened.append(k)
        if self.count == self.skip or k in self.missing:
            return False
        eol = b'\n'
        for no, line in enumerate(self.files[k]['lines'], 1):
            if line[0] == 'i':
                head = line[1][2]
                if not self.open(line[1][0], (k, no)):
                    if head.startswith('#include') and (
                            line[1][0] < len(self.files)):
                        key = (k, no, 'W_PP_INCLUDE_MISSING')
                        self.warnings[key] = self.warnings.get(key, 0) + 1
            else:
                self.lines.append(conf.encode(line[1]) + eol)
                self.origin.append((k, no))
        return True


def execute(case, out):
    base = compare(case, out, None)
    if base is None:
        return
    opens = [op[0] for op in base.fs.log if op[1] == 'open' and
             'nosuch' not in op[2][0]]
    out.nontrivial = len(case['files']) > 1
    if 'only' in case:
        plans = [case['only']]
    else:
        plans = [[n, op] for n, op in enumerate(opens) if n]
    for n, op in plans:
        if compare(case, out, (n, op)) is None:
            out.hint = {'only': [n, op]}
            return


def compare(case, out, fault):
    """Run it spread and flat, and compare."""
    flat = Flat(case, fault[0] if fault else None)
    whole = run_one(case, out, flat.data, None)
    spread = run_one(case, out, None, fault)
    if whole is None or spread is None:
        return None
    bad = []
    if fault and not spread.fs.fired:
        bad.append(('opens', 'the file was not opened again'))
    want, texts = {}, {}
    for (name, no, class_), n in conf.parse_report(whole.err)[0].items():
        if class_ in conf.LAYOUT:
            continue
        origin = flat.origin[no] if 0 < no < len(flat.origin) else (0, no)
        key = (origin[0], origin[1], class_)
        want[key] = want.get(key, 0) + n
    if case['cmd'].endswith('check'):
        for key, n in flat.warnings.items():
            want[key] = want.get(key, 0) + n
    have = {}
    names = {posixpath.normpath(prefix(case) + f['name']): k
             for k, f in enumerate(case['files'])}
    for (name, no, class_), n in conf.parse_report(spread.err)[0].items():
        if class_ in conf.LAYOUT:
            continue
        key = (names.get(posixpath.normpath(name), name), no, class_)
        have[key] = have.get(key, 0) + n
    # What is missed is at the context after it, or else nowhere.
    want, have = nowhere(want), nowhere(have)
    for key in sorted(set(want) | set(have), key=str):
        if want.get(key, 0) != have.get(key, 0):
            bad.append(('issues', '{}:{} {}: {} in one file, {} with '
                        'includes'.format(
                            case['files'][key[0]]['name']
                            if isinstance(key[0], int) else key[0],
                            key[1], key[2], want.get(key, 0),
                            have.get(key, 0))))
    if messages(whole, case) != messages(spread, case) and not flat.warnings:
        a, b = messages(whole, case), messages(spread, case)
        bad.append(('issues', 'other texts: {} and {}'.format(
            [i for i in a if i not in b][:3],
            [i for i in b if i not in a][:3])))
    if whole.out != spread.out:
        bad.append(('output', 'in one file: {}; with includes: {}'.format(
            whole.out[-500:], spread.out[-500:])))
    layout = any(k[2] in conf.LAYOUT for i in (whole, spread)
                 for k in conf.parse_report(i.err)[0])
    if whole.error or spread.error:
        if (whole.error, whole.exit) != (spread.error, spread.exit):
            bad.append(('exit', '{} in one file, {} with includes'.format(
                whole.error, spread.error)))
    elif not layout and not flat.warnings and whole.exit != spread.exit:
        bad.append(('exit', 'exit {} in one file, {} with includes'.format(
            whole.exit, spread.exit)))
    out.sign(case['cmd'], sorted({k[2] for k in have}), bool(fault),
             len(flat.opened))
    if bad:
        for kind, text in bad[:3]:
            out.violate(kind, text)
        out.trace.append(flat.data.decode('utf-8', 'replace'))
        out.trace.append(whole.err)
        cli.describe(out, spread, {fault[1]: case['error']} if fault else {})
        return None
    return spread


def nowhere(issues):
    ret = {}
    for (k, no, class_), n in issues.items():
        if no <= 0:
            k, no = 'nowhere', 0
        ret[k, no, class_] = ret.get((k, no, class_), 0) + n
    return ret


def messages(run, case):
    """The texts of the issues, but for those that name a place."""
    ret = []
    for line in run.err.split('\n'):
        found = conf.parse_report(line)[0]
        if not found:
            continue
        class_ = list(found)[0][2]
        if class_ in conf.LAYOUT:
            continue
        text = line.split(class_ + ': ', 1)[1]
        if '.conf' not in text and '.inc' not in text:
            ret.append((class_, text))
    return sorted(ret)


def prefix(case):
    return {'abs': cli.CONFDIR + '/', 'cwd': '', 'rel': '../etc/asterisk/',
            'updir': '../asterisk/'}[case['call']]


def absent(fs, path, how):
    """There is something of that name which cannot be read."""
    if how == 'no':
        return
    fs.mkdirs(posixpath.dirname(path))
    if how == 'directory':
        fs.mkdirs(path)
    elif how == 'dangling':
        fs.put_link(path, 'nowhere.conf')
    elif how == 'loop':
        fs.put_link(path, posixpath.basename(path))
    elif how == 'denied':
        fs.put(path, b'[foo]\n', mode=0)
        fs.euid = fs.egid = 1000
    elif how == 'below':
        fs.put(path + '.real', b'[foo]\n')
        fs.put_link(path, posixpath.basename(path) + '.real/x')


def run_one(case, out, data, fault):
    fs = vfs.FS()
    fs.mkdirs('/home/user')
    fs.mkdirs('/work')
    root = case['files'][0]['name']
    if data is not None:
        fs.mkdirs(cli.CONFDIR)
        fs.put('{}/{}'.format(cli.CONFDIR, root), data)
    else:
        built = conf.Built(case['files'])
        keep = [i for i in range(len(case['files']))
                if i not in case['missing']]
        built.data = [built.data[i] for i in keep]
        cli.filesystem([case['files'][i] for i in keep], built, fs=fs)
        for i in case['missing']:
            absent(fs, posixpath.join(cli.CONFDIR, case['files'][i]['name']),
                   case.get('absent', 'no'))
    fs.cwd = {'abs': '/', 'cwd': cli.CONFDIR, 'rel': '/work',
              'updir': cli.CONFDIR}[case['call']]
    if fault:
        fs.plan = cli.plan_of({fault[1]: ['errno', case['error']]})
    vfs.fs_bufsize[0] = case['bufsize']
    fs.seal()
    res = proc.cli(out, fs, [case['cmd'], prefix(case) + root])
    vfs.fs_bufsize[0] = 8192
    if res is not None:
        out.note(res.exit, res.error, res.fs.log, res.err, res.out)
    return res


def shrink(case):
    if case['missing']:
        yield dict(case, missing=[])
        if case.get('absent', 'no') != 'no':
            yield dict(case, absent='no')
    for key, simple in (('call', 'abs'), ('bufsize', 8192)):
        if case[key] != simple:
            yield dict(case, **{key: simple})
    yield from conf.shrink_files(case)
    for k, file in enumerate(case['files']):
        for no in range(len(file['lines'])):
            new = [dict(i) for i in case['files']]
            new[k]['lines'] = file['lines'][:no] + file['lines'][no + 1:]
            yield dict(case, files=new)
