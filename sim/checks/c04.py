"""C04: a check succeeds exactly if all was read and nothing was found."""
import posixpath

from .. import conf, proc, vfs
from . import cli

prepare = cli.prepare

IGNORES = ['', '', '', '', 'W_', 'E_', 'H_,W_', 'E_,W_,H_,I_', 'E_APP_',
           'E_APP', ',', 'W_WSH_EOL', 'E_APP_MISSING,W_APP_NEED_PARENS',
           'W_FILE_,W_WSH_,', 'E_DP_GOTO_,W_DP_GOTO_CONTEXT_NOEXTEN',
           'E_DP_,W_DP_,H_', 'X_NOSUCH', 'E_ODBC_,W_ODBC_,E_CONF_',
           'E_FUNC_,E_VAR_', 'W_PP_INCLUDE_MISSING,W_PP_EXEC']
FAULTS = cli.READ_FAULTS + [['errno', 'ENOSPC'], ['errno', 'EPIPE']]


def generate(rng, tier):
    p_bad = rng.choice([0, 0, .05, .1, .3, .6])
    case = {'cmd': rng.choice(['dialplan-check'] * 3 + ['func_odbc-check']),
            'odbc': None, 'odbc_mode': rng.choice(['auto', 'auto', 'arg',
                                                   'off']),
            'ignore': rng.choice(IGNORES),
            'how': rng.choice(['abs', 'abs', 'cwd', 'default', 'rel']),
            'bufsize': rng.choice([16, 64, 256, 8192]),
            'fault': rng.choice(FAULTS)}
    odbc, funcs = conf.func_odbc(rng, p_bad)
    if case['cmd'] == 'func_odbc-check':
        case['files'] = conf.spread(rng, odbc, 'func_odbc.conf')
        return many(rng, case)
    lines = conf.dialplan(rng, p_bad, odbc_funcs=funcs)
    uses = 'ODBC_F' in str(lines) or 'PRE_F' in str(lines)
    if uses or rng.random() < .5:
        case['odbc'] = conf.spread(rng, odbc, 'func_odbc.conf', nfiles=1)
        if uses and case['odbc_mode'] == 'off':
            case['odbc_mode'] = 'auto'
    case['files'] = conf.spread(rng, lines, 'extensions.conf')
    return many(rng, case)


def many(rng, case):
    """
    Once in a while there are very many issues: as many as do not fit in
    whatever they are counted with (an exit status is 8 bits).
    """
    if rng.random() > .04 or any(
            i and 'W_WSH_EOL'.startswith(i)
            for i in case['ignore'].split(',')):
        return case
    wanted = rng.choice([256, 256, 256, 512, 255, 257])
    have = sum(Setup(case).expected.values())
    lines = case['files'][0]['lines']
    for k in range(max(0, wanted - have)):
        lines.insert(len(lines) // 2, [
            'l', '; comment {}  '.format(k), ['W_WSH_EOL'], 9000 + k])
    return dict(case, only={}, bufsize=8192)


class Setup:
    def __init__(self, case):
        self.case = case
        self.built = conf.Built(case['files'])
        fs = self.fs = cli.filesystem(case['files'], self.built)
        how = case['how']
        root = case['files'][0]['name']
        prefix = cli.CONFDIR + '/'
        args = [prefix + root]
        if how == 'cwd':
            fs.cwd, prefix, args = cli.CONFDIR, '', [root]
        elif how == 'default':
            fs.cwd, prefix, args = cli.CONFDIR, '', []
        elif how == 'rel':
            fs.cwd, prefix = '/work', '../etc/asterisk/'
            args = [prefix + root]
        issues = cli.located(self.built.issues(), prefix)
        self.mandatory = {prefix + root}
        self.odbc = None
        self.paths = {prefix + f['name']: posixpath.join(
            cli.CONFDIR, f['name']) for f in case['files']}
        if case['odbc']:
            self.odbc = conf.Built(case['odbc'])
            where = cli.CONFDIR
            if case['odbc_mode'] == 'arg':
                where = '/srv/odbc'
                args = args + ['--func-odbc', where + '/func_odbc.conf']
            cli.filesystem(case['odbc'], self.odbc, where, fs)
            if case['odbc_mode'] == 'off':
                args = args + ['--func-odbc=']
            else:
                at = prefix if case['odbc_mode'] == 'auto' else where + '/'
                issues = cli.add(issues, cli.located(
                    self.odbc.issues(), at))
                self.paths[at + 'func_odbc.conf'] = where + '/func_odbc.conf'
                if case['odbc_mode'] == 'arg':
                    self.mandatory.add(at + 'func_odbc.conf')
        self.args = [case['cmd']] + args
        self.issues = issues
        self.prefix = prefix
        self.expected = cli.visible(issues, case['ignore'])

    def run(self, out, plan):
        denied = plan.get('denied')
        if denied:
            self.fs.euid = self.fs.egid = 1000
            self.fs.node(self.paths[denied]).mode = 0
        else:
            self.fs.plan = cli.plan_of(plan)
        env = {}
        if self.case['ignore']:
            env['ALINT_IGNORE'] = self.case['ignore']
        vfs.fs_bufsize[0] = self.case['bufsize']
        self.fs.seal()
        res = proc.cli(out, self.fs, self.args, env=env)
        vfs.fs_bufsize[0] = 8192
        if res is not None:
            out.note(res.exit, res.error, res.fs.log, res.err)
        return res


def execute(case, out):
    if case['ignore']:
        proc.with_env(out, {'ALINT_IGNORE': case['ignore']}, prepare,
                      execute_here, case)
    else:
        execute_here(case, out)


def execute_here(case, out):
    setup = Setup(case)
    base = setup.run(out, {})
    if base is None:
        return
    bad = undisturbed(setup, base)
    if bad:
        report(out, base, {}, bad)
        out.hint = {'only': {}}
        return
    out.nontrivial = bool(setup.expected) or len(case['files']) > 1
    out.sign(case['cmd'], base.exit, sorted({k[2] for k in setup.issues}),
             case['ignore'], case['odbc_mode'])
    if 'only' in case:
        plans = [case['only']]
    else:
        plans = [{op[0]: case['fault']} for op in base.fs.log
                 if applies(case['fault'], op)]
        if case['bufsize'] < 64 and len(plans) > 150:
            plans = plans[::len(plans) // 100]
        plans += [{'denied': i} for i in setup.paths if base.fs.node(
            setup.paths[i]).ino in base.fs.read_to_end]
    for plan in plans:
        setup = Setup(case)
        run = setup.run(out, plan)
        if run is None:
            out.hint = {'only': plan}
            return
        bad = faulted(setup, base, run, plan.get('denied'))
        if run.fs.fired:
            op = next(i for i in run.fs.log if i[3])
            out.sign(op[1], run.exit, run.fs.fired, (run.error or '')[:30])
        if bad:
            report(out, run, plan, bad)
            out.hint = {'only': plan}
            return


def applies(fault, op):
    if fault[0] == 'short':
        return op[1] == 'read'
    if fault[0] == 'errno':
        if op[1] == 'close':
            return fault[1] in ('EIO', 'ENOMEM')
        if op[1] == 'read':
            return fault[1] not in ('EMFILE', 'ENFILE', 'ELOOP',
                                    'ENAMETOOLONG', 'ENOENT')
        if op[1] == 'out':
            return fault[1] in ('EIO', 'ENOMEM', 'ESTALE', 'EACCES', 'EPERM',
                                'EINVAL', 'ENXIO', 'EBADF', 'ENOSPC', 'EPIPE')
    return True


def undisturbed(setup, run):
    bad = []
    want = 1 if setup.expected else 0
    if run.exit != want:
        bad.append(('exit', 'exit {} ({}), expected {}, with {} issue(s): '
                    '{}'.format(run.exit, run.error, want,
                                len(setup.expected), run.err[-300:])))
    found, rest = conf.parse_report(run.err)
    text = conf.diff(cli.normalise(setup.expected), cli.normalise(found))
    if text:
        bad.append(('report', '; '.join(text[:5])))
    if rest and not bad:
        bad.append(('report', 'on stderr: {}'.format(rest[:3])))
    if run.exit == 0:
        bad += all_read(setup, run, ())
    return bad


def all_read(setup, run, missing):
    """Nothing is a success that did not see everything."""
    for shown, path in setup.paths.items():
        node = run.fs.node(path)
        if node is None or posixpath.normpath(shown) in missing:
            continue
        if node.ino not in run.fs.read_to_end:
            return [('unread', 'success, and {} was read up to byte {} of '
                     '{} only'.format(
                         path, run.fs.readpos.get(node.ino, 0),
                         len(node.data)))]
    return []


def earlier(setup, run, path):
    """
    The issues of the lines before the point up to which the files were
    handed out, which are reported right away. path is that of the file which
    could not be read on.
    """
    ret = {}
    parts = [(setup.built, setup.prefix, setup.case['files'])]
    if setup.odbc and setup.case['odbc_mode'] != 'off':
        at = setup.prefix if setup.case['odbc_mode'] == 'auto' else (
            '/srv/odbc/')
        parts.insert(0, (setup.odbc, at, setup.case['odbc']))
    for built, prefix, files in parts:
        order = built.order
        mine = [k for k, f in enumerate(files) if posixpath.normpath(
            setup.paths[prefix + f['name']]) == path]
        if mine:
            at = [i for i, (k, no) in enumerate(order) if k == mine[0]]
            if not at or len({no for no in at}) != len(
                    {order[i][1] for i in at}):
                return ret      # (read twice, or nothing in it)
            order = order[:at[-1] + 1]
        for k, no in order:
            node = run.fs.node(setup.paths[prefix + files[k]['name']])
            have = run.fs.readpos.get(node.ino, 0)
            if have < built.ends[k][no - 1]:
                return ret
            if (have == built.ends[k][no - 1] and no == len(
                    files[k]['lines']) and not files[k]['last']):
                return ret      # (it does not know yet that this is all)
            if files[k]['lines'][no - 1][0] == 'i':
                continue
            for class_ in built.line_issues[k].get(no, ()):
                if class_ not in conf.LATE:
                    key = (prefix + files[k]['name'], no, class_)
                    ret[key] = ret.get(key, 0) + 1
        if mine:
            return ret
    return {}


def faulted(setup, base, run, denied):
    bad = []
    found, rest = conf.parse_report(run.err)
    found = cli.normalise(found)
    fired = [i for i in run.fs.log if i[3]]
    if denied:
        op, kind = (0, 'open', (denied,)), ''
    elif not fired or run.fs.fired[0].startswith('short'):
        if (run.exit, run.err) != (base.exit, base.err):
            bad.append(('report', 'short reads change the report: exit {} '
                        '{}'.format(run.exit, run.err[-300:])))
        return bad
    else:
        op, kind = fired[0], run.fs.fired[0]
    name, path = op[1], posixpath.normpath(str(op[2][0]))
    if run.exit == 0 and (found or rest or run.error):
        bad.append(('exit', 'success, and yet it says {}'.format(
            run.err[-300:])))
    deadly = None
    if kind.startswith('sigint'):
        if not (kind == 'sigint_after' and op[0] == len(run.fs.log)):
            deadly = 'interrupted'
    elif name == 'out':
        deadly = 'report not written'
    elif name == 'read':
        deadly = 'not read'
    elif name == 'open' and path in {
            posixpath.normpath(i) for i in setup.mandatory}:
        deadly = 'not opened'
    elif name == 'open' and path.endswith('/func_odbc.conf'):
        deadly = 'not opened'
    if deadly and run.exit == 0:
        bad.append(('exit', 'success, although {}: {}'.format(deadly, op)))
    missing = set()
    if name == 'open' and not deadly:
        missing = subtree(setup, path)
        bad += include_failed(setup, run, found, path)
    elif name in ('lstat', 'stat', 'readlink', 'access'):
        # (What that leads to depends on what it was needed for.)
        missing = {posixpath.normpath(i) for i in setup.paths}
    if run.exit == 0:
        bad += all_read(setup, run, missing)
    if name in ('read', 'close', 'out') or kind.startswith('sigint'):
        before = {}
        if name in ('read', 'close'):
            before = cli.visible(earlier(setup, run, path),
                                 setup.case['ignore'])
        for key, n in cli.normalise(before).items():
            if found.get(key, 0) < n:
                bad.append(('lost', 'found before the failure, and not '
                            'reported: {}:{} {}'.format(*key)))
                break
        late = [i for i in found if found[i] > cli.normalise(
            setup.expected).get(i, 0)]
        if late and name != 'out':
            bad.append(('invented', 'reported, and it is not there: '
                        '{}:{} {}'.format(*late[0])))
    return bad


def subtree(setup, path):
    """The files which are not read if this one cannot be."""
    files = setup.case['files']
    todo = [k for k, f in enumerate(files) if posixpath.normpath(
        setup.prefix + f['name']) == path]
    ret = set()
    while todo:
        k = todo.pop()
        ret.add(posixpath.normpath(setup.prefix + files[k]['name']))
        todo += [i[1][0] for i in files[k]['lines']
                 if i[0] == 'i' and i[1][0] < len(files)]
    return ret


def include_failed(setup, run, found, path):
    """Exactly one warning, at the directive."""
    files = setup.case['files']
    bad = []
    for k, file in enumerate(files):
        for no, line in enumerate(file['lines'], 1):
            if line[0] != 'i' or line[1][0] >= len(files):
                continue
            target = posixpath.normpath(
                setup.prefix + files[line[1][0]]['name'])
            if target != path:
                continue
            key = (posixpath.normpath(setup.prefix + file['name']), no,
                   'W_PP_INCLUDE_MISSING')
            want = {key: 1} if line[1][2].startswith('#include') else {}
            want = cli.visible(want, setup.case['ignore'])
            if found.get(key, 0) != len(want):
                bad.append(('include', 'the include of {} failed, and there '
                            'is {} warning at {}:{}'.format(
                                path, found.get(key, 0), key[0], no)))
            if want and run.exit != 1:
                bad.append(('exit', 'exit {} after the include of {} '
                            'failed'.format(run.exit, path)))
    return bad


def report(out, run, plan, bad):
    for kind, text in bad[:3]:
        out.violate(kind, text)
    cli.describe(out, run, plan)


def shrink(case):
    yield from conf.shrink_files(case)
    if case['odbc'] and 'ODBC_F' not in str(case['files']) and (
            'PRE_F' not in str(case['files'])):
        yield dict(case, odbc=None)
    for key, simple in (('ignore', ''), ('how', 'abs'), ('bufsize', 8192)):
        if case[key] != simple:
            yield dict(case, **{key: simple})
