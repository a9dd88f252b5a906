"""C09: every check ends, whatever includes what."""
import posixpath

from .. import conf, core, proc, vfs
from . import cli

prepare = cli.prepare

NAMES = ['extensions.conf', 'a.conf', 'sub/b.conf', 'sub/deep/c.conf',
         'd.inc', 'sub/e.conf', 'z/f.conf', 'g h.conf']
ERRORS = ['ENOENT', 'EACCES', 'EMFILE', 'ELOOP', 'ENOMEM', 'EIO']
SHAPES = ['random', 'random', 'cycle', 'self', 'ladder', 'all', 'none']


def generate(rng, tier):
    case = {'cmd': rng.choice(['dialplan-check'] * 5 + [
        'func_odbc-check', 'dialplan-show', 'modules-show']),
        'call': rng.choice(['abs', 'cwd', 'rel', 'link']),
        'error': rng.choice(ERRORS), 'links': [], 'faulty': True}
    odbc = case['cmd'] == 'func_odbc-check'
    nfiles = rng.choice([1, 2, 2, 3, 4, 5, 7])
    names = list(NAMES[1:])
    rng.shuffle(names)
    long = rng.choice(['files', 'contexts', '']) if rng.random() < .04 else ''
    if long == 'files':
        nfiles = rng.choice([20, 40, 80])
        names += [rng.choice(['', 'sub/', 'z/']) + 'n{}.conf'.format(i)
                  for i in range(nfiles)]
    names = ['func_odbc.conf' if odbc else NAMES[0]] + names[:nfiles - 1]
    # Other names of the files: links, and names in linked directories.
    links = case['links']
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        kind = rng.choice(['file', 'file', 'dir', 'dir', 'dot', 'chain'])
        if kind == 'file':
            target = rng.choice(names)
            links.append(['ln{}.conf'.format(len(links)), target])
        elif kind == 'dir':
            links.append([rng.choice(['', '', 'sub/', 'z/']) + 'lndir{}'.format(
                len(links)), rng.choice(['sub', 'z', '.', 'sub/deep',
                                         'sub/deep'])])
        elif kind == 'dot':
            links.append(['sub/up{}'.format(len(links)), '..'])
        elif links:
            links.append(['ln{}.conf'.format(len(links)), links[-1][0]])
    edges = []
    shape = rng.choice(['cycle', 'line'] if long == 'files' else SHAPES)
    if shape == 'line':
        edges = [(i, i + 1) for i in range(nfiles - 1)]
    elif shape == 'random':
        for _ in range(rng.choice([1, 2, 4, 7])):
            edges.append((rng.randrange(nfiles), rng.randrange(nfiles)))
    elif shape == 'cycle':
        edges = [(i, (i + 1) % nfiles) for i in range(nfiles)]
    elif shape == 'self':
        edges = [(i, i) for i in range(nfiles)] + [
            (i, i + 1) for i in range(nfiles - 1)]
    elif shape == 'ladder':
        edges = [(i, i + 1) for i in range(nfiles - 1)] * 2
    elif shape == 'all' and nfiles <= 4:
        edges = [(i, j) for i in range(nfiles) for j in range(nfiles)]
    files = case['files'] = [
        {'name': i, 'eol': 'lf', 'last': True, 'lines': []} for i in names]
    contexts(rng, case, odbc, long == 'contexts')
    # (Beware of too many ways to go.)
    for a, b in edges[:20] if long != 'files' else edges:
        how = rng.choice(['rel', 'rel', 'dots', 'abs', 'updown', 'link',
                          'through', 'through'])
        if long == 'files':
            how = 'rel'
        line = ['#', [how, b, rng.randrange(100)], [], 0, rng.choice(
            ['#include ', '#include ', '#tryinclude '])]
        lines = files[a]['lines']
        lines.insert(rng.randrange(len(lines) + 1), line)
        if long != 'files' and walk_size(case) > 250:
            lines.remove(line)
    return case


def contexts(rng, case, odbc, long):
    files = case['files']
    if odbc:
        for k, file in enumerate(files):
            for i in range(rng.choice([0, 1, 2])):
                file['lines'] += [
                    ['h', '[F{}{}]'.format(k, i), [], 0],
                    ['l', 'dsn=x', [], 0], ['l', 'readsql=SELECT 1', [], 0]]
        files[0]['lines'][:0] = [['h', '[G]', [], 0], ['l', 'dsn=x', [], 0],
                                 ['l', 'readsql=SELECT 2', [], 0]]
        return
    n = rng.choice([1, 2, 3, 5, 8, 26])
    shape = rng.choice(['random', 'cycle', 'ladder', 'all', 'self', 'tree'])
    if long:
        n = rng.choice([400, 1200, 2500])
        shape = rng.choice(['cycle', 'ladder', 'line'])
    elif len(files) > 10:
        n = 3
    lines = {k: [] for k in range(len(files))}
    lines[0] += [['h', '[general]', [], 0], ['h', '[globals]', [], 0]]
    m = 0
    for i in range(n):
        k = rng.randrange(len(files))
        if n == 26 or not i:
            k = 0
        body = [['h', '[ctx{}]'.format(i), [], 0]]
        for j in range(rng.choice([1, 1, 2])):
            if long and i and rng.random() > 2 / n:
                break
            m += 1
            body.append(['g', [i, m, rng.randrange(n), rng.choice(
                [rng.randrange(1, 60), 0])], [], m])
        if shape == 'random':
            into = [rng.randrange(n) for _ in range(rng.choice([0, 1, 2]))]
        elif shape == 'cycle':
            into = [(i + 1) % n]
        elif shape == 'line':
            into = [i + 1]
        elif shape == 'self':
            into = [i]
        elif shape == 'all' and n <= 8:
            into = list(range(n))
        elif shape == 'tree':
            into = [(i - 1) // 2] if i else []
        else:
            into = [j for j in (i + 1, i + 2) if j < n]
        for j in into:
            body.insert(rng.randrange(1, len(body) + 1), ['c', j, [], 0])
        lines[k] += body
    for k, file in enumerate(files):
        file['lines'] = lines[k]


def name_of(case, k, spec):
    """How file k calls the file the directive is for."""
    how, target, salt = spec
    files = case['files']
    base = posixpath.dirname(files[k]['name'])
    name = files[target]['name']
    rel = posixpath.relpath(name, base or '.')
    if how == 'dots':
        return './' * (1 + salt % 3) + rel
    if how == 'abs':
        return cli.CONFDIR + '//' + name
    if how == 'updown':
        return posixpath.relpath('.', base or '.') + '/../asterisk/' + name
    dirs = [i for i in case['links'] if not i[0].endswith('.conf')]
    if how == 'through' and dirs:
        # (By way of what a linked directory really is in.)
        link, to = dirs[salt % len(dirs)]
        to = {'.': '', '..': ''}.get(to, to)
        return posixpath.join(posixpath.relpath(link, base or '.'),
                              posixpath.relpath(name, to or '.'))
    if how == 'link' and case['links']:
        link, to = case['links'][salt % len(case['links'])]
        return posixpath.relpath(link, base or '.') + (
            '' if link.endswith('.conf') else '/b.conf')
    return rel


def text_of(case, k, line):
    if line[0] == '#':
        return '{}"{}"'.format(line[4], name_of(case, k, line[1]))
    if line[0] == 'g':
        _, m, to, ext = line[1]
        return 'exten => e{},1,Goto(ctx{},e{},1)'.format(m, to, ext)
    if line[0] == 'c':
        return 'include => ctx{}'.format(line[1])
    return line[1]


class Tree:
    """The files, and what reading them comes to."""
    def __init__(self, case):
        self.case = case
        fs = self.fs = vfs.FS()
        for path in ('/home/user', '/work'):
            fs.mkdirs(path)
        for name in ('sub', 'z', 'sub/deep'):
            fs.mkdirs(cli.CONFDIR + '/' + name)
        self.names = {}
        for k, file in enumerate(case['files']):
            path = cli.CONFDIR + '/' + file['name']
            self.names[path] = k
            fs.put(path, b''.join(
                conf.encode(text_of(case, k, i)) + b'\n'
                for i in file['lines']))
        self.links = {}
        for link, target in case['links']:
            path = cli.CONFDIR + '/' + link
            if target != '..':
                target = posixpath.relpath(target, posixpath.dirname(link)
                                           or '.')
            fs.put_link(path, target)
            self.links[path] = target
        if case['call'] == 'link':
            self.links['/work/main.conf'] = '../etc/asterisk/' + case[
                'files'][0]['name']
            fs.put_link('/work/main.conf', self.links['/work/main.conf'])

    def resolve(self, path):
        """The real path (of what has no endless links)."""
        out = []
        todo = path.split('/')
        steps = 0
        while todo:
            part = todo.pop(0)
            if part in ('', '.'):
                continue
            if part == '..':
                out = out[:-1]
                continue
            here = '/' + '/'.join(out + [part])
            if here in self.links and steps < 100:
                steps += 1
                todo = self.links[here].split('/') + todo
            else:
                out.append(part)
        return '/' + '/'.join(out)

    def prefix(self):
        return {'abs': cli.CONFDIR + '/', 'cwd': '',
                'rel': '../etc/asterisk/', 'link': ''}[self.case['call']]

    def arg(self):
        if self.case['call'] == 'link':
            return '/work/main.conf'
        return self.prefix() + self.case['files'][0]['name']

    def cwd(self):
        return {'abs': '/', 'cwd': cli.CONFDIR, 'rel': '/work',
                'link': '/'}[self.case['call']]

    def read(self, limit=100000):
        """
        What reading comes to: how many files are opened, and [(name, line,
        kind, what)] of all that is read.
        """
        self.opened = 0
        self.found = []
        self._read(self.arg(), ())
        return self

    def _read(self, name, stack):
        real = self.resolve(posixpath.join(self.cwd(), name))
        if real in stack:
            return 'recursive'
        if real not in self.names:
            return 'missing'
        self.opened += 1
        k = self.names[real]
        if self.opened > 2000:
            raise core.ProcessProblem('too large')
        for no, line in enumerate(self.case['files'][k]['lines'], 1):
            self.found.append((name, no, line[0], line[1]))
            if line[0] == '#':
                # (The name is made of the name of the file that was opened.)
                what = posixpath.join(posixpath.dirname(name),
                                      name_of(self.case, k, line[1]))
                got = self._read(what, stack + (real,))
                if got == 'recursive':
                    self.found.append((name, no, 'recursive', None))
                elif got == 'missing' and line[4] == '#include ':
                    self.found.append((name, no, 'missing', None))
        return None


def walk_size(case):
    return Tree(case).read().opened


def expectations(tree):
    """{(path, line, class): n} of those that are looked at."""
    want = {}

    def add(name, no, class_):
        key = (posixpath.normpath(posixpath.join(tree.cwd(), name)), no,
               class_)
        want[key] = want.get(key, 0) + 1

    includes, extens, current = {}, {}, None
    jumps = []
    seen = set()
    for name, no, kind, what in tree.found:
        if kind == 'recursive':
            add(name, no, 'E_PP_INCLUDE_RECURSIVE')
        elif kind == 'missing':
            add(name, no, 'W_PP_INCLUDE_MISSING')
        elif kind == 'h':
            current = what[1:-1]
        elif kind == 'c' and current:
            includes.setdefault(current, set()).add('ctx%d' % what)
        elif kind == 'g' and current:
            if (current, what[1]) in seen:
                continue        # (a duplicate)
            seen.add((current, what[1]))
            extens.setdefault(current, set()).add(what[1])
            jumps.append((name, no, what))
    for name, no, (_, m, to, ext) in jumps:
        closure, todo = set(), ['ctx%d' % to]
        while todo:
            ctx = todo.pop()
            if ctx not in closure:
                closure.add(ctx)
                todo += includes.get(ctx, ())
        if not any(ext in extens.get(i, ()) for i in closure):
            add(name, no, 'JUMP')
    return want


def execute(case, out):
    tree = Tree(case).read()
    base = run_one(tree, out, {})
    if base is None:
        return
    bad = []
    if base.error or base.exit not in (0, 1):
        bad.append(('internal error', '{} {}'.format(base.error, base.site)))
    opens = [i for i in base.fs.log if i[1] == 'open']
    missing = sum(1 for i in tree.found if i[2] == 'missing')
    if not bad and case['cmd'].endswith('check'):
        want = expectations(tree)
        have = {}
        for (name, no, class_), n in conf.parse_report(base.err)[0].items():
            if class_.startswith(('E_DP_GOTO', 'W_DP_GOTO')):
                class_ = 'JUMP'
            elif not class_.endswith(('_RECURSIVE', '_INCLUDE_MISSING')):
                continue
            key = (posixpath.normpath(posixpath.join(tree.cwd(), name)), no,
                   class_)
            have[key] = have.get(key, 0) + n
        if case['cmd'] == 'func_odbc-check':
            want = {k: n for k, n in want.items() if k[2] != 'JUMP'}
        for text in conf.diff(want, have)[:3]:
            bad.append(('issues', text))
    out.nontrivial = any(i[2] == 'recursive' for i in tree.found) or (
        tree.opened > 1)
    out.sign(case['cmd'], tree.opened, missing, base.exit,
             [i[2] for i in tree.found if i[2] in ('#', 'recursive')])
    if tree.opened and any(i[2] == 'recursive' for i in tree.found):
        out.probe('recursive include')
    if bad:
        report(out, base, {}, bad)
        out.hint = {'only': {}}
        return
    # Faults: it ends, and opens nothing endlessly.
    if 'only' in case:
        plans = [case['only']]
    else:
        plans = [{op[0]: ['errno', case['error']]} for op in base.fs.log
                 if op[1] in ('open', 'lstat', 'stat', 'readlink')]
        if len(plans) > 40:
            plans = plans[::len(plans) // (20 if len(plans) < 1000 else 4)]
    for plan in plans:
        tree = Tree(case)
        run = run_one(tree, out, plan)
        if run is None:
            out.hint = {'only': plan}
            return
        count = sum(1 for i in run.fs.log if i[1] == 'open')
        if count > 4 * len(opens) + 40:
            report(out, run, plan, [('opens', '{} files opened, and {} if '
                                     'nothing fails'.format(
                                         count, len(opens)))])
            out.hint = {'only': plan}
            return


def run_one(tree, out, plan):
    fs = tree.fs
    fs.cwd = tree.cwd()
    fs.plan = cli.plan_of(plan)
    fs.max_ops = 60000 + 30 * len(tree.case['files']) ** 2
    fs.seal()
    res = proc.cli(out, fs, [tree.case['cmd'], tree.arg()])
    if res is not None:
        out.note(res.exit, res.error, res.fs.opno, res.err, res.out)
    return res


def report(out, run, plan, bad):
    for kind, text in bad[:3]:
        out.violate(kind, text)
    cli.describe(out, run, plan)


def shrink(case):
    if case['call'] != 'abs':
        yield dict(case, call='abs')
    for k in range(len(case['files'])):
        lines = case['files'][k]['lines']
        for keep in core.shrink_list(lines):
            new = [dict(i) for i in case['files']]
            new[k]['lines'] = keep
            yield dict(case, files=new)
    for k in range(len(case['links'])):
        yield dict(case, links=case['links'][:k] + case['links'][k + 1:])
