"""
The rewriting tools (make_patterns_canonical, convert_dp_104_to_1100 and
custom mutators) in the simulated process, under every kind of interruption.

A case is a tree of config files of which every line comes with what it must
become, by construction: the expectation never depends on the code under test.
"""
import os
import posixpath
import random

from .. import proc, vfs
from ..core import shrink_list
from ..proc import ERRNO

REPO = proc.REPO
TOOLS = {
    'canonical': REPO + '/contrib/make_patterns_canonical.py',
    'execif': REPO + '/contrib/convert_dp_104_to_1100.py',
}

PATTERNS = [
    ('_8[2-9]x', '_8NX'), ('_1[0-9]x', '_1XX'), ('_[1-9].', '_Z.'),
    ('_5[5]x', '_55X'), ('_[42]1', '_[24]1'), ('_[1-3]x', '_[123]X'),
    ('_n!', '_N!'), ('_zxn', '_ZXN'), ('_[13-57]x', '_[13457]X'),
    ('_[x]1', 'x1'), ('_[0123456789].', '_X.'), ('_x.', '_X.'),
    ('_[2-9][0-9][0-9]', '_NXX'), ('_00x.', '_00X.'),
    ('_1x2n3z4', '_1X2N3Z4'), ('_\xc3\xa9[0-9]x', '_\xc3\xa9XX'),
    ('_[1-9]xxxxxx', '_ZXXXXXX'), ('_09[876]z', '_09[678]Z'),
]
CLEAN = [
    'exten => s,1,NoOp()', ' same => n,Answer()', 'exten => _X.,1,NoOp(x=1)',
    'exten => _8NX,1,Verbose(_8[2-9]x)', '; a comment, exten => _1x,1,NoOp',
    '', 'exten => 100,1,Set(a=b)', ' same => n(lbl),Dial(SIP/x,,r)',
    '; latin \xe9\xff', '[other]', 'exten => i,1,Hangup()',
    'exten => 200,1,ExecIf(${x}?NoOp(a))', '; tab\there', '; \x07bell',
    'exten => 300,1,NoOp(\xc3\xa9\xc3\xa9)', '#tryinclude "nosuch.conf"',
    'bad line without equals', 'exten => s,1', 'include => other',
    '; one\rtwo\r', 'exten => 400,1,NoOp(a\rb)', '; \x0b\x0c\x1c\x85\xe2\x80\xa8',
    ' same => n,ExecIf($[1]?NoOp(a,NoOp,b))', '\r', '; \0\x1a',
]
TAILS = [',1,NoOp()', ',1,Verbose({})', ',1,NoOp() ; {}', ',1,Answer()\t',
         ',1,Set(p={})', ',1(start),NoOp(\xe9)', ',1,NoOp(a=b)', ',1,NoOp(a=>{})']
# (With a comment that has the same text, too.)
EXECIFS = [
    ('exten => {},1,ExecIf(${{a}},NoOp,b) ; ${{a}},NoOp,b',
     'exten => {},1,ExecIf(${{a}}?NoOp(b)) ; ${{a}},NoOp,b'),
    ('exten => {},1,ExecIf(1,NoOp,1,NoOp,b)  ; ExecIf(1,NoOp,1,NoOp,b)',
     'exten => {},1,ExecIf(1?NoOp(1,NoOp,b))  ; ExecIf(1,NoOp,1,NoOp,b)'),
    ('exten => {},1,ExecIf(${{a}},NoOp,b)', 'exten => {},1,ExecIf(${{a}}?NoOp(b))'),
    ('exten => {},1,ExecIf($["${{a}}"="1"],Set,b=c)',
     'exten => {},1,ExecIf($["${{a}}"="1"]?Set(b=c))'),
    ('exten => {},1,ExecIf(${{a}},Dial,SIP/x,10)',
     'exten => {},1,ExecIf(${{a}}?Dial(SIP/x,10))'),
    ('exten => {},1,ExecIf(${{\xc3\xa9}},Answer)',
     'exten => {},1,ExecIf(${{\xc3\xa9}}?Answer())'),
]
FAILING_EXECIF = 'exten => {},1,GosubIf(${{a}},ctx,s,1)'    # not implemented

ROOT = '/etc/asterisk/extensions.conf'
# What may lie next to the files: editors, package managers and
# administrators leave these.
NEAR = ['{}~', '{}.bak', '{}.tmp', '{}.new', '{}.orig', '{}.old', '{}.save',
        '.{}.tmp', '.{}.swp', '#{}#', '{}.1', '{}.dpkg-old', '{}.backup',
        '{}.temp', '{}.out', 'tmp', 'temp', '{}.lock']

NAMES = ['a.conf', 'ext/b.conf', 'ext/deep/c.conf', 'with space.conf',
         'caf\xc3\xa9.conf', 'z.inc', 'ext/A.conf', 'ext/extensions.conf',
         'ext/deep/b.conf', 'ext/a.conf', 'deep/ext/a.conf']

MUTATING = ('openw', 'write', 'rename', 'unlink', 'chmod', 'chown', 'mkdir',
            'rmdir', 'link', 'symlink', 'truncate', 'ftruncate')


def gen_line(rng, tool, n, p_hot):
    """(old, new or None if unchanged)"""
    if rng.random() < p_hot:
        if tool == 'execif':
            old, new = rng.choice(EXECIFS)
            return [old.format(n), new.format(n)]
        old, new = rng.choice(PATTERNS)
        tail = rng.choice(TAILS).format(old)
        if '\xc3' in old and '\xe9' in tail:
            tail = TAILS[0]     # (only in lines which are UTF-8)
        head = rng.choice(['exten => ', 'exten => ', 'exten=>', 'exten = ',
                           'exten   =>  '])
        return [head + old + tail, head + new + tail]
    return [rng.choice(CLEAN), None]


def gen_tree(rng, tool, small=False):
    p_hot = rng.choice([.1, .25, .5, .9])
    nfiles = rng.choice([1, 1, 2, 2, 3, 4])
    names = rng.sample(NAMES, nfiles - 1)
    files = []
    n = 0
    for k, name in enumerate([posixpath.basename(ROOT)] + names):
        lines = [['; file {} {}'.format(k, rng.randint(0, 10**6)), None]]
        if k == 0:
            lines += [['[general]', None], ['[globals]', None],
                      ['[default]', None]]
        for _ in range(rng.choice([1, 2, 3, 5, 8, 13, 30 if not small else 5])):
            n += 1
            lines.append(gen_line(rng, tool, n, p_hot))
        uid, gid, mode = rng.choice([
            (0, 0, 0o644), (0, 0, 0o640), (0, 0, 0o600), (1000, 1000, 0o644),
            (1000, 1000, 0o600), (0, 1000, 0o640), (1000, 0, 0o660),
            (1000, 1000, 0o664), (77, 88, 0o444), (77, 88, 0o755),
            (1000, 1000, 0o400), (0, 0, 0o666), (0, 1000, 0o2640),
            (1000, 1000, 0o4644), (1000, 1000, 0o2664), (0, 0, 0o1644)])
        files.append({
            'name': name, 'lines': lines, 'mode': mode, 'uid': uid,
            'gid': gid, 'eol': rng.choice(['\n', '\n', '\n', '\r\n']),
            'last': rng.random() < .7,
            'near': rng.choice([[], [], [
                [i, rng.choice(['file', 'file', 'link', 'dangling', 'dir'])]
                for i in rng.sample(NEAR, 8)]]),
            'hard': rng.choice([None] * 8 + ['/srv/old.{}', '{}.orig']),
            'link': rng.choice([None, None, None, None, 'abs', 'rel',
                                'chain', 'away'])})
    # Who includes whom: a later file is included by an earlier one.
    for k in range(1, nfiles):
        for _ in range(rng.choice([1, 1, 1, 2])):
            files[rng.randrange(k)].setdefault('includes', []).append(
                [k, rng.random(), rng.choice(
                    ['plain', 'plain', 'quote', 'dots', 'alias'])])
    if rng.random() < .05:
        for file in files:
            file['lines'] = [[i[0] if i[1] is None else i[1], None]
                             for i in file['lines']]
    return files


def generate(rng, tier, kinds=('canonical', 'execif', 'custom')):
    tool = rng.choice(['canonical'] * 3 + ['execif', 'custom', 'custom'])
    if tool not in kinds:
        tool = kinds[0]
    case = {
        'tool': tool,
        'files': gen_tree(rng, 'canonical' if tool == 'custom' else tool),
        'root': rng.choice(['abs', 'abs', 'cwd', 'dot', 'up', 'dirlink']),
        'euid': rng.choice([0, 0, 0, 1000]),
        'umask': rng.choice([0o022, 0o022, 0o077, 0o002, 0]),
        'bufsize': rng.choice([64, 512, 8192, 8192]),
        'devices': rng.choice([[], [], [77, 77], [2, 77], [2, 3], [2, 3, 4]]),
        'answer': 'y\n', 'seed': rng.randint(0, 10**9)}
    if case['euid'] and rng.random() < .8:
        # Mostly files which can be replaced.
        for file in case['files']:
            file['uid'] = file['gid'] = 1000
    hot = [(k, i) for k, f in enumerate(case['files'])
           for i, line in enumerate(f['lines']) if line[1] is not None]
    if hot and tool == 'custom':
        case['dup'] = rng.random() < .3
        case['shuffle'] = rng.random() < .3
        for k, i in hot:
            what = rng.random()
            line = case['files'][k]['lines'][i]
            if what < .15:
                line[1] = ''                # delete it
            elif what < .4:
                line[1] = '\n'.join(['; expanded'] * rng.choice([2, 3, 40])
                                    + [line[1]])
        if rng.random() < .25:
            case['raise_at'] = list(rng.choice(hot))
    if hot and tool == 'execif' and rng.random() < .2:
        k, i = rng.choice(hot)
        case['files'][k]['lines'][i] = [
            FAILING_EXECIF.format(rng.randint(1, 99)), None]
        case['raise_at'] = [k, i]
    return case


# -- building it ---------------------------------------------------------

def b(text):
    return text.encode('latin-1')


def include_text(files, k, target, style):
    # (Relative to the directory of the including file.)
    base = posixpath.dirname(files[k]['name'])
    rel = posixpath.relpath(files[target]['name'], base or '.')
    if style == 'dots':
        rel = posixpath.join('.', rel)
    elif style == 'alias' and base == '':
        rel = posixpath.join('alias', rel)
    if style != 'plain' or ' ' in rel:
        rel = '"{}"'.format(rel)
    return '#include ' + rel


class Tree:
    """A case, built: the file system, and what must become of it."""
    def __init__(self, case):
        self.case = case
        fs = self.fs = vfs.FS(case['euid'], case['euid'])
        fs.umask = case['umask']
        confdir = '/etc/asterisk'
        own = case['euid']
        for path in ('/home/user', '/work', '/tmp', '/srv'):
            fs.mkdirs(path)
        fs.mkdirs('/etc', 0o755)
        fs.mkdirs('/srv/conf', 0o755, own, own)
        for path, dev in zip(('/tmp', '/srv/conf', '/etc'),
                             case.get('devices', ())):
            fs.mount(path, dev)     # (before there is anything in it)
        fs.mkdirs(confdir, 0o755, own, own)
        fs.put_link('/work/link', confdir)
        fs.put_link(confdir + '/alias', '.')
        fs.put('/etc/passwd', b'root:x:0:0::/root:/bin/sh\n')
        fs.put(confdir + '/unrelated.conf', b'[default]\nexten => _1x,1,A\n')
        self.old, self.new, self.meta = [], [], []
        self.issues = []        # per file: [(lineno, old, new)]
        self.paths = []         # where the data really is
        files = case['files']
        for k, file in enumerate(files):
            lines = [list(i) for i in file['lines']]
            for target, where, style in sorted(
                    file.get('includes', ()), key=lambda x: (x[1], x[0])):
                if target < len(files):
                    at = 4 if k == 0 else 1
                    at = at + int(where * max(0, len(lines) - at))
                    lines.insert(min(at, len(lines)), [
                        include_text(files, k, target, style), None])
            old, new, issues = [], [], []
            for i, (o, n) in enumerate(lines):
                eol = file['eol']
                if i == len(lines) - 1 and not file['last']:
                    eol = ''
                o = b(o + eol)
                if n is None:
                    n2 = o
                elif n == '' and case['tool'] == 'custom':
                    n2 = b''
                else:
                    n2 = b(n + eol)
                old.append(o)
                new.append(n2)
                if n is not None:
                    issues.append((i, n2))
            data = b''.join(old)
            path = confdir + '/' + file['name']
            name = b(path).decode('utf-8', 'surrogateescape')
            real = name
            fs.mkdirs(posixpath.dirname(name), 0o755, own, own)
            link = file['link']
            if link:
                real = '/srv/conf/{}'.format(
                    file['name'].encode('latin-1').decode(
                        'utf-8', 'surrogateescape').replace('/', '_') +
                    '.real')
                rel = posixpath.relpath(real, posixpath.dirname(name))
                if link == 'abs':
                    fs.put_link(name, real)
                elif link == 'rel':
                    fs.put_link(name, rel)
                elif link == 'chain':
                    fs.put_link('/srv/hop{}'.format(k),
                                'conf/' + posixpath.basename(real))
                    fs.put_link(name, '/srv/hop{}'.format(k))
                else:
                    real = name + '.away'
                    fs.put_link(name, posixpath.basename(real))
            node = fs.put(real, data, file['mode'], file['uid'], file['gid'])
            if file.get('hard') and case.get('busy') != k:
                # Another name of the same file, which nobody mentions.
                fs.put_hard(file['hard'].format(k if file['hard'][0] == '/'
                                                else real), node)
            for pattern, kind in file.get('near') or ():
                near = posixpath.join(
                    posixpath.dirname(real),
                    pattern.format(posixpath.basename(real)))
                if fs.node(near, follow=False):
                    continue
                if kind == 'file':
                    fs.put(near, b'; precious\n' + data[:40], 0o644, own, own)
                elif kind == 'dir':
                    fs.mkdirs(near, 0o755, own, own)
                else:
                    fs.put_link(near, '/etc/passwd' if kind == 'link'
                                else 'nosuch.d/nosuch')
            self.paths.append(real)
            self.old.append(data)
            self.new.append(b''.join(new))
            self.meta.append((file['mode'], file['uid'], file['gid']))
            self.issues.append(issues)
        fs.cwd = {'abs': '/work', 'dirlink': '/work', 'cwd': confdir,
                  'dot': confdir, 'up': '/etc/asterisk'}[case['root']]
        base = posixpath.basename(ROOT)
        self.root = {'abs': ROOT, 'cwd': base, 'dot': './' + base,
                     'up': '../asterisk/' + base,
                     'dirlink': '/work/link/' + base}[case['root']]
        # Which are reached? (All are included, but an include may be gone
        # in a minimised case.)
        self.reached = {0}
        todo = [0]
        while todo:
            for target, _, _ in files[todo.pop()].get('includes', ()):
                if target < len(files) and target not in self.reached:
                    self.reached.add(target)
                    todo.append(target)
        for k in range(len(files)):
            if k not in self.reached and case['tool'] != 'custom':
                self.new[k] = self.old[k]
                self.issues[k] = []
        self.hot = [k for k in range(len(files)) if self.issues[k]]
        if case.get('busy') is not None and case['busy'] < len(self.paths):
            # Bind mounted, like containers have it: cannot be replaced.
            fs.mount(self.paths[case['busy']], 5)
        fs.seal()
        self.before = fs.tree()
        self.raises = case.get('raise_at')
        if self.raises and self.raises[0] not in self.reached:
            self.raises = None
        self.unowned = case['euid'] != 0 and any(
            self.meta[k][1:] != (case['euid'], case['euid'])
            for k in self.hot)
        unreadable = [k for k in self.reached if case['euid'] and not fs._may(
            fs.node(self.paths[k]), 4)]
        self.unreadable = bool(unreadable)

    def entry(self):
        if self.case['tool'] != 'custom':
            return proc.script(TOOLS[self.case['tool']])
        rng = random.Random(self.case['seed'])
        issues_per_file = {}
        for k in self.hot:
            items = []
            for lineno, new in self.issues[k]:
                boom = self.raises == [k, None] or (
                    self.raises and self.raises[0] == k and
                    self._issue_no(k) == lineno)
                items.append((lineno, new, boom))
            if self.case.get('dup'):
                items += items[::2]
            if self.case.get('shuffle'):
                rng.shuffle(items)
            name = self.fs_name(k)
            issues_per_file[name] = items
            if self.case.get('dup') and k == 0 and self.fs.cwd != '/work':
                # The same file, by another name.
                issues_per_file['alias/' + posixpath.basename(ROOT)] = items

        class Issue:
            def __init__(self, item):
                self.lineno, self.new, self.boom = item

        def entry():
            from asterisklint.helper.mutator import FileMutatorBase

            class Mutator(FileMutatorBase):
                def process_issue(self, issue, inline, outfile):
                    if issue.boom:
                        outfile.write(issue.new[:5])
                        raise NotImplementedError('cannot convert this')
                    outfile.write(issue.new)

            mutator = Mutator({
                name: [Issue(i) for i in items]
                for name, items in issues_per_file.items()})
            mutator.request_permission_and_process()
        return entry

    def _issue_no(self, k):
        # (raise_at counts lines without the includes.)
        want = self.raises[1]
        text = self.case['files'][k]['lines']
        if want >= len(text) or text[want][1] is None:
            return None
        nth = sum(1 for i in text[:want] if i[1] is not None)
        if nth < len(self.issues[k]):
            return self.issues[k][nth][0]
        return None

    def fs_name(self, k):
        name = b('/etc/asterisk/' + self.case['files'][k]['name']).decode(
            'utf-8', 'surrogateescape')
        if k == 0 or self.fs.cwd != '/work':
            if k == 0:
                return self.root
            if self.case['seed'] % 2:
                return posixpath.relpath(name, self.fs.cwd)
        return name

    def argv(self):
        if self.case['tool'] == 'custom':
            return ['custom-mutator']
        return [TOOLS[self.case['tool']], self.root]


# -- what is watched, operation by operation -------------------------------

class Watch:
    """
    The observer: called in the simulated process after every operation.
    Its report is a list of (class, text).
    """
    def __init__(self, tree, what):
        self.tree, self.what = tree, what
        self.report = []
        self.power_states = 0
        self.rng = random.Random(tree.case['seed'] + 1)
        self.inos = {i for i in tree.fs.inodes}
        self.dirs = {p for p, v in tree.before.items() if v[0] != 'f'}

    def bad(self, class_, fs, text):
        if len(self.report) < 5:
            self.report.append((class_, 'after operation {} ({}): {}'.format(
                fs.opno, ' '.join(map(str, fs.log[-1][1:3])), text)))

    def __call__(self, fs):
        if fs.log[-1][1] in ('in', 'out', 'stat', 'lstat', 'open', 'read',
                             'readlink', 'access'):
            return
        if 'content' in self.what:
            self.contents(fs, fs, 'is')
            if fs.log[-1][1] in MUTATING or fs.log[-1][1] in (
                    'fsync', 'close', 'sync'):
                for _ in range(self.what.get('power', 2)):
                    self.power_states += 1
                    self.contents(fs, fs.after_power_loss(self.rng),
                                  'after a power loss would be')
        if 'meta' in self.what:
            self.metadata(fs)
        if 'others' in self.what:
            self.others(fs)

    def contents(self, fs, state, verb):
        tree = self.tree
        for k, path in enumerate(tree.paths):
            data = state.content(path)
            if data != tree.old[k] and data != tree.new[k]:
                self.bad('torn', fs, '{} {} {!r}, neither old nor new'.format(
                    path, verb, data if data is None else data[:200]))
            # By the name that the administrator uses, too.
            name = tree.fs_name(k)
            if state.content(name) != data:
                self.bad('torn', fs, '{} does not lead to {} anymore'.format(
                    name, path))

    def metadata(self, fs):
        tree = self.tree
        for k, path in enumerate(tree.paths):
            node = fs.node(path, follow=False)
            if node is None or node.kind != 'f':
                self.bad('replaced', fs, '{} is not a regular file '
                         'anymore'.format(path))
            elif (node.mode, node.uid, node.gid) != tree.meta[k]:
                self.bad('ownership', fs, '{} has mode {:o} uid {} gid {}, '
                         'was mode {:o} uid {} gid {}'.format(
                             path, node.mode, node.uid, node.gid,
                             *tree.meta[k]))
        # The new content must not be open to more than the old one was.
        for ino, node in fs.inodes.items():
            if ino in self.inos or node.kind != 'f' or not node.data:
                continue
            if not node.nlink:
                continue
            fits = unfit = False
            for k in range(len(tree.paths)):
                if not (tree.new[k].startswith(bytes(node.data)) or
                        tree.old[k].startswith(bytes(node.data))):
                    continue
                if self.exposed(node, tree.meta[k], fs.euid):
                    unfit = True
                else:
                    fits = True
            if unfit and not fits:
                self.bad('exposed', fs, 'a copy has mode {:o} uid {} gid '
                         '{}'.format(node.mode, node.uid, node.gid))

    @staticmethod
    def exposed(node, meta, euid):
        mode, uid, gid = meta
        if node.mode & 0o007 & ~mode:
            return True
        group = node.mode >> 3 & 7
        allowed = mode >> 3 & 7 if node.gid == gid else mode & 7
        if group & ~allowed:
            return True
        return node.uid not in (uid, euid)

    def others(self, fs):
        tree = self.tree
        now = fs.tree()
        for path, value in tree.before.items():
            if path in tree.paths:
                continue
            if now.get(path) != value:
                self.bad('other', fs, '{} was {!r}, is {!r}'.format(
                    path, value, now.get(path)))


def leftovers(tree, fs):
    return sorted(set(fs.tree()) - set(tree.before))


def announced(tree, asked):
    """The numbers of the files that were named before the question."""
    found = set()
    inos = {tree.fs.node(path).ino: k for k, path in enumerate(tree.paths)}
    for line in asked.split('\n'):
        for at in range(len(line)):
            if at and not line[at - 1].isspace():
                continue
            node = tree.fs.node(line[at:]) or tree.fs.node(
                line[at:].strip('\'"-*:, '))
            if node is not None and node.ino in inos:
                found.add(inos[node.ino])
    return found


def unannounced(tree, run):
    """Files that have changed, but nobody was asked about."""
    changed = [k for k, path in enumerate(tree.paths)
               if run.res.fs.content(path) != tree.old[k]]
    if not changed:
        return []
    found = announced(tree, run.res.asked)
    return [('unannounced', '{} was changed, it is not among the files in '
             'the question: {!r}'.format(tree.paths[k], run.res.asked[:500]))
            for k in changed if k not in found]


def plan_of(fault, rng=None):
    kind = fault[0]
    if kind == 'errno':
        return ['errno', ERRNO[fault[1]]]
    if kind == 'partial':
        return ['partial', fault[1], ERRNO[fault[2]]]
    return list(fault)


FAULTS = (
    [['errno', i] for i in ('EIO', 'ENOSPC', 'EACCES', 'EPERM', 'EROFS',
                            'EDQUOT', 'EMFILE', 'ENOENT', 'ENOMEM', 'EBUSY',
                            'EXDEV')] +
    [['crash'], ['crash'], ['crash_after'], ['sigint'], ['sigint'],
     ['sigint_after'], ['sigint_after'], ['short', 30], ['short', 1],
     ['partial', 50, 'ENOSPC'], ['partial', 5, 'EIO']])


def applies(fault, op):
    """Can this fault meet this operation?"""
    name = op[1]
    if fault[0] == 'short':
        return name in ('write', 'read', 'out')
    if fault[0] == 'partial':
        return name == 'write'
    if fault[0] == 'sigint_after':
        # An interrupt between creating a file and anything knowing of it
        # is not something a program can do a thing about.
        return name != 'openw'
    if fault[0] == 'errno':
        if fault[1] == 'ENOSPC':
            return name in ('write', 'openw', 'fsync', 'close', 'rename',
                            'out', 'mkdir', 'link', 'symlink')
        if fault[1] in ('EBUSY', 'EXDEV'):
            return name in ('rename', 'link') or (
                name == 'unlink' and fault[1] == 'EBUSY')
        if fault[1] == 'EINTR':
            return False
        if fault[1] == 'ENOENT':
            return name in ('open', 'stat', 'lstat', 'openw')
        return True
    return True


class Run:
    """One simulated run of the tool, and what was seen."""
    def __init__(self, out, tree, fs, plan, watch, answer):
        fs.plan = {int(k): plan_of(v) for k, v in plan.items()}
        fs.observer = watch
        vfs.fs_bufsize[0] = tree.case['bufsize']
        self.res = proc.run(out, fs, tree.entry(), tree.argv(),
                            stdin=answer, collect=_collect)
        vfs.fs_bufsize[0] = 8192
        self.ok = self.res is not None
        if self.ok:
            self.log = self.res.fs.log
            self.fired = self.res.fs.fired
            self.prompt = next(
                (i[0] for i in self.log if i[1] == 'in'), None)
            out.note(self.res.exit, self.res.error, self.log)

    @property
    def stopped(self):
        return self.res.exit is None


def _collect(state, ret):
    return None


def describe(out, run, plan):
    out.trace.append('plan {}'.format(plan))
    for op in run.log:
        out.trace.append('  {} {} {} {}'.format(*op))
    out.trace.append('exit {} {}'.format(run.res.exit, run.res.error or ''))


def shrink(case):
    """Smaller cases: used by all three checks."""
    import copy
    files = case['files']
    # Without the last file.
    for k in range(len(files) - 1, 0, -1):
        new = copy.deepcopy(case)
        del new['files'][k]
        for file in new['files']:
            file['includes'] = [
                [t - (t > k), w, s] for t, w, s in file.get('includes', ())
                if t != k]
        if new.get('raise_at'):
            if new['raise_at'][0] == k:
                del new['raise_at']
            elif new['raise_at'][0] > k:
                new['raise_at'][0] -= 1
        yield new
    for k, file in enumerate(files):
        start = 4 if k == 0 else 1
        if not case.get('raise_at'):
            for lines in shrink_list(file['lines'][start:]):
                new = copy.deepcopy(case)
                new['files'][k]['lines'] = file['lines'][:start] + lines
                yield new
        for key, simple in (('link', None), ('eol', '\n'), ('last', True),
                            ('mode', 0o644), ('uid', case['euid']),
                            ('gid', case['euid']), ('near', []),
                            ('hard', None)):
            if file.get(key, simple) != simple:
                new = copy.deepcopy(case)
                new['files'][k][key] = simple
                yield new
        if len(file.get('includes', ())) > 1:
            for incs in shrink_list(file['includes']):
                new = copy.deepcopy(case)
                new['files'][k]['includes'] = incs
                yield new
    for key, simple in (('root', 'abs'), ('euid', 0), ('umask', 0o022),
                        ('devices', []), ('busy', None), ('bufsize', 8192), ('dup', False),
                        ('shuffle', False), ('raise_at', None)):
        if case.get(key, simple) != simple:
            new = copy.deepcopy(case)
            new[key] = simple
            yield new


def prepare():
    proc.preload('asterisklint.helper.mutator', 'asterisklint.pattern',
                 'asterisklint.app.base')
    proc.preload_mods()


