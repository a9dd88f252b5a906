"""C17: what others do to the files meanwhile is not lost."""
import posixpath
import random

from . import rewrite
from .rewrite import Run, Tree, describe, leftovers

prepare = rewrite.prepare
HOWS = ['insert', 'insert', 'insert', 'delete', 'delete', 'clean', 'hot',
        'byhand', 'exchange', 'append', 'cut', 'empty', 'prose', 'trap',
        'newhot', 'samesize', 'all']
ATONCE = 4      # operations before a renaming: nobody can be that quick


def generate(rng, tier):
    case = rewrite.generate(rng, tier, kinds=('canonical', 'execif'))
    case['how'] = [rng.choice(HOWS) for _ in range(rng.choice([1, 1, 2]))]
    case['way'] = rng.choice(['inplace'] * 4 + ['replace'] * 4 + [
        'remove', 'chmod', 'chown', 'link', 'link'])
    case['who'] = rng.random()
    case['where'] = [rng.random() for _ in range(4)]
    return case


def edit_lines(tree, k, how, where, rng):
    """The new lines of file k, from the point of view of its editor."""
    lines = split(tree.old[k])
    hot = [i for i, _ in tree.issues[k]]
    at = int(where * (len(lines) + 1))
    if hot and rng.random() < .6:
        at = rng.choice(hot) + rng.choice([0, 0, 0, 1])
    at = min(at, max(0, len(lines) - 1))
    near = min(rng.choice(hot) if hot else at, max(0, len(lines) - 1))
    if how == 'insert':
        lines[at:at] = rng.choice([
            [b'; edited\n'], [b'exten => 77,1,NoOp(edited)\n'] * 2,
            [b'\n'], [b'no equals sign\n'], [b'; \xff\n'] * 3])
    elif how == 'delete':
        del lines[at:at + rng.choice([1, 1, 2, 5])]
    elif how == 'clean' and lines:
        lines[at] = b'exten => 78,1,NoOp(edited)\n'
    elif how == 'hot' and near < len(lines):
        # It is still one that has to be converted, but a different one.
        lines[near] = {
            'canonical': b'exten => _7[0-9]x,1,NoOp(edited)\n',
            'execif': b'exten => 78,1,ExecIf(${e},NoOp,edited)\n',
        }[tree.case['tool']]
    elif how == 'byhand' and near in hot:
        lines[near] = dict(tree.issues[k])[near]
    elif how == 'exchange' and lines:
        other = rng.randrange(len(lines))
        lines[near], lines[other] = lines[other], lines[near]
    elif how == 'append':
        lines.append(b'exten => 79,1,NoOp(edited)\n')
    elif how == 'cut':
        del lines[at:]
    elif how == 'empty':
        lines = []
    elif how == 'prose':
        lines = [b'; this is', b' something = different\n'] * 20
    elif how == 'trap' and lines:
        # It has the same text in it.
        text = lines[near].rstrip(b'\r\n')
        lines[near] = b'exten => 80,1,NoOp() ; was = ' + text + b'\n'
    elif how == 'newhot':
        lines.insert(at, {
            'canonical': b'exten => _6[0-9]x,1,NoOp(new)\n',
            'execif': b'exten => 81,1,ExecIf(${n},NoOp,new)\n',
        }[tree.case['tool']])
    elif how == 'samesize' and lines:
        lines[at] = b';' * len(lines[at][:-1]) + lines[at][-1:]
    elif how == 'all':
        lines = [b'; ' + i for i in lines]
    for i, line in enumerate(lines[:-1]):
        if not line.endswith(b'\n'):
            lines[i] += b'\n'
    return b''.join(lines)


class Edit:
    """What is done to which file, and what it is then."""
    def __init__(self, case, tree):
        rng = random.Random(case['seed'] + 17)
        order = tree.hot if tree.hot and rng.random() < .9 else list(
            range(len(tree.paths)))
        self.k = k = order[int(case['who'] * len(order))]
        self.path = path = tree.paths[k]
        self.way = case['way']
        mode, uid, gid = tree.meta[k]
        data = tree.old[k]
        if case['way'] in ('inplace', 'replace', 'link'):
            saved = tree.old[k]
            for how, where in zip(case['how'], case['where']):
                tree.old[k] = edit_lines(tree, k, how, where, rng)
                data = tree.old[k]
            tree.old[k] = saved
        self.data = data
        self.meta = tree.meta[k]
        self.skip = False
        self.extra = {}         # path: (data, ...) that is there, too
        if self.way == 'inplace':
            self.events = [['inplace', path, data]]
        elif self.way == 'replace':
            euid = case['euid']
            self.meta = rng.choice([
                (mode, uid, gid), (mode, uid, gid), (0o600, euid, euid)])
            self.events = [['replace', path, (data,) + self.meta]]
        elif self.way == 'remove':
            self.data = None
            self.events = [['remove', path, None]]
        elif self.way == 'chmod':
            self.meta = (rng.choice([0o600, 0o640, 0o666, 0o400]), uid, gid)
            self.events = [['chmod', path, self.meta[0]]]
        elif self.way == 'chown':
            self.meta = (mode, 55 if not case['euid'] else uid, 56)
            if case['euid']:
                self.meta = self.meta[:2] + (gid,)
            self.events = [['chown', path, self.meta[1:]]]
        else:
            # The name leads elsewhere now, where there is another version.
            self.data = tree.old[k]
            name = rewrite.b('/etc/asterisk/' + case['files'][k][
                'name']).decode('utf-8', 'surrogateescape')
            self.other = '/srv/conf/other version.conf'
            euid = case['euid']
            self.extra = {self.other: data}
            self.events = [
                ['replace', self.other, (data, 0o644, euid, euid)],
                ['link', name, self.other]]
            self.skip = name == path    # (it is the link now)


def split(data):
    lines = data.split(b'\n')
    last = lines.pop()
    return [i + b'\n' for i in lines] + ([last] if last else [])


NEW = {
    b'exten => _7[0-9]x,1,NoOp(edited)': b'exten => _7XX,1,NoOp(edited)',
    b'exten => 78,1,ExecIf(${e},NoOp,edited)':
        b'exten => 78,1,ExecIf(${e}?NoOp(edited))',
    b'exten => _6[0-9]x,1,NoOp(new)': b'exten => _6XX,1,NoOp(new)',
    b'exten => 81,1,ExecIf(${n},NoOp,new)':
        b'exten => 81,1,ExecIf(${n}?NoOp(new))',
}


def conversions(tree):
    """line: what it is to become"""
    ret = dict(NEW)
    for k, data in enumerate(tree.old):
        lines = split(data)
        for i, new in tree.issues[k]:
            ret[lines[i].rstrip(b'\r\n')] = new.rstrip(b'\r\n')
    return ret


def derived(data, base, conv):
    """Is data what base is, with some lines (or none) converted?"""
    if data == base:
        return True
    if data is None or base is None:
        return False
    data, base = split(data), split(base)
    if len(data) != len(base):
        return False
    for new, old in zip(data, base):
        text = old.rstrip(b'\r\n')
        if new != old and (
                text not in conv or new != conv[text] + old[len(text):]):
            return False
    return True


def execute(case, out):
    tree = Tree(case)
    base = Run(out, tree, tree.fs, {}, None, b'y\n')
    if not base.ok:
        return
    if base.prompt is None:
        out.sign('nothing to do')
        return
    out.nontrivial = True
    rng = random.Random(case['seed'] + 3)
    ops = [op[0] for op in base.log]
    early = [i for i in ops if i < base.prompt]
    late = [i for i in ops if i > base.prompt]
    plans = sorted(rng.sample(early, min(len(early), 8)) + [base.prompt] +
                   rng.sample(late, min(len(late), 24)))
    if 'only' in case:
        plans = [i for i in ops if i == case['only']]
    for at in plans:
        tree = Tree(case)
        edit = Edit(case, tree)
        run = Run(out, tree, tree.fs, {at: ['edit', edit.events]}, None,
                  b'y\n')
        if not run.ok:
            out.hint = {'only': at}
            return
        bad = judge(out, tree, run, edit, at)
        for kind, text in bad[:3]:
            out.violate(kind, text)
        if bad:
            out.hint = {'only': at}
            describe(out, run, {at: edit.events})
            return


def judge(out, tree, run, edit, at):
    bad = []
    fs, res = run.res.fs, run.res
    if not run.fired:
        return bad      # it got there never
    conv = conversions(tree)
    renames = [op[0] for op in run.log if op[1] == 'rename']
    atonce = any(at <= i <= at + ATONCE for i in renames)
    out.sign(edit.way, res.exit, atonce, (res.error or '').split(':')[0],
             run.prompt is not None and at > run.prompt)
    out.probe('at_once' if atonce else
              'refused' if res.exit else 'done')
    # (Was it converted before it was edited?)
    before = [op for op in run.log if op[0] < at]
    done = any(op[1] == 'rename' and op[2][-1].endswith(
        posixpath.basename(edit.path)) for op in before)
    for k, path in enumerate(tree.paths):
        data = fs.content(path)
        if k == edit.k and edit.skip:
            node = fs.node(path, follow=False)
            if not atonce and (node is None or node.kind != 'l'):
                bad.append(('lost', '{} is no link anymore'.format(path)))
            continue
        if k != edit.k or edit.way in ('chmod', 'chown'):
            if data not in (tree.old[k], tree.new[k]) and not derived(
                    data, tree.old[k], conv):
                bad.append(('result', '{} is {!r}, was {!r}'.format(
                    path, data, tree.old[k])))
        elif not derived(data, edit.data, conv) and not (
                atonce and data in (tree.old[k], tree.new[k])):
            bad.append(('lost', '{} is {!r}, somebody made it {!r}'.format(
                path, data, edit.data)))
        node = fs.node(path, follow=False)
        if node is None or atonce:
            continue
        meta = edit.meta if k == edit.k else tree.meta[k]
        if (node.mode, node.uid, node.gid) != meta:
            bad.append(('ownership', '{} has mode {:o} uid {} gid {}, '
                        'somebody gave it {:o} {} {}'.format(
                            path, node.mode, node.uid, node.gid, *meta)))
    for path, data in edit.extra.items():
        if not derived(fs.content(path), data, conv):
            bad.append(('lost', '{} is {!r}, somebody made it {!r}'.format(
                path, fs.content(path), data)))
    left = [i for i in leftovers(tree, fs) if i not in edit.extra]
    if left and not run.stopped:
        bad.append(('leftover', 'the run ended (exit {}), and left '
                    '{}'.format(res.exit, left)))
    # Having read it before, it knows what there was to be done.
    reads = [op[0] for op in run.log if op[1] == 'read'
             and tree.fs.node(op[2][0]) is tree.fs.node(edit.path)
             and run.prompt is not None and op[0] < run.prompt]
    if (res.exit == 0 and run.prompt is not None and not atonce and not done
            and reads and max(reads) < at and tree.issues[edit.k]
            and (edit.way != 'link' or at <= run.prompt)):
        where = (list(edit.extra) or [edit.path])[0]
        if edit.data is None and not edit.extra:
            bad.append(('exit', 'success, but {} is gone'.format(edit.path)))
        lines = [i.rstrip(b'\r\n') for i in split(fs.content(where) or b'')]
        old = split(tree.old[edit.k])
        for i, _ in tree.issues[edit.k]:
            if old[i].rstrip(b'\r\n') in lines:
                bad.append(('exit', 'success, but in {} there is still '
                            '{!r}'.format(where, old[i])))
    return bad


def shrink(case):
    yield from rewrite.shrink(case)
    if len(case['how']) > 1:
        for one in case['how']:
            yield dict(case, how=[one])
