"""C12: every issue is recorded, passed on and printed exactly once."""
import posixpath

from .. import conf, proc, vfs
from . import cli
from .c04 import IGNORES

prepare = cli.prepare

LISTEN = [
    'E_APP_MISSING', 'E_FUNC_MISSING', 'H_PAT_NON_CANONICAL',
    'E_APP_ARG_IFSTYLE', 'W_WSH_COMMENT', 'W_WSH_EOL', 'E_FILE_UTF8_BAD',
    'W_FILE_UNIX_NOLF', 'W_DP_GOTO_CONTEXT_NOEXTEN', 'W_WSH_VARSET',
    'E_DP_PRIO_DUPE', 'W_APP_WSH', 'E_ODBC_DUPLICATE_KEY', 'W_FILE_DOS_EOFCRLF',
    'H_DP_GLOBALS_MISPLACED', 'E_CONF_CTX_MISSING', 'I_NOTIMPL_TEMPLATES',
    'W_CONF_CTX_DUPE', 'E_VAR_SUBST_BRACKETS', 'W_FILE_DIRECT_WRITE_FUNC']
FAULTS = [['errno', 'EIO'], ['errno', 'EPIPE'], ['errno', 'ENOSPC'],
          ['short', 50], ['sigint']]


def generate(rng, tier):
    phases = []
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        p_bad = rng.choice([0, .1, .3, .6])
        kind = rng.choice(['dialplan', 'dialplan', 'odbc'])
        if phases and rng.random() < .3:
            phases.append(dict(phases[rng.randrange(len(phases))]))
        elif kind == 'dialplan':
            phases.append({'kind': kind, 'files': conf.spread(
                rng, conf.dialplan(rng, p_bad), 'extensions.conf')})
        else:
            phases.append({'kind': kind, 'files': conf.spread(
                rng, conf.func_odbc(rng, p_bad)[0], 'func_odbc.conf')})
        phases[-1].update(muted=rng.random() < .2, reset=rng.random() < .7)
    listen = []
    for name in rng.sample(LISTEN, rng.choice([0, 3, 10, 20])):
        listen.append([name, rng.choice([1, 1, 1, 2, 3, 9])])
    return {'phases': phases, 'listen': listen,
            'fault': rng.choice(FAULTS), 'where': rng.choice(
                ['out', 'out', 'all']),
            'bufsize': rng.choice([64, 8192]),
            'ignore': rng.choice(IGNORES)}


def find_class(base, name):
    for sub in base.__subclasses__():
        if sub.__name__ == name:
            return sub
        found = find_class(sub, name)
        if found:
            return found
    return None


def key_of(msg):
    return [type(msg).__name__, str(msg.where), msg.where.lineno,
            msg.message.format(**msg.fmtkwargs)]


def driver(case):
    def entry():
        import sys
        from asterisklint import FileDialplanParser, FileFuncOdbcParser
        from asterisklint.defines import MessageDef, MessageDefManager
        calls = []
        for name, times in case['listen']:
            class_ = find_class(MessageDef, name)
            if class_ is None:      # (there is no such message)
                continue
            for n in range(times):
                class_.add_callback(
                    lambda msg, name=name, n=n: calls.append(
                        [name, n, key_of(msg)]))
        results = []
        for k, phase in enumerate(case['phases']):
            MessageDefManager.muted = phase['muted']
            before = {i: len(v) for i, v in MessageDefManager.raised.items()}
            ncalls = len(calls)
            raw = sys.stderr.buffer.raw
            nprint = len(raw.data)
            error = None
            try:
                if phase['kind'] == 'dialplan':
                    parser = FileDialplanParser()
                else:
                    parser = FileFuncOdbcParser()
                parser.include('/conf{}/{}'.format(
                    k, phase['files'][0]['name']))
                for element in parser:
                    if phase['kind'] == 'dialplan':
                        element.walk_jump_destinations()
                element = parser = None
            except (Exception, KeyboardInterrupt) as exc:
                error = type(exc).__name__
                del exc
            delta = {i: [key_of(m) for m in v[before.get(i, 0):]]
                     for i, v in MessageDefManager.raised.items()}
            result = {'error': error,
                      'recorded': {i: v for i, v in delta.items() if v},
                      'calls': calls[ncalls:],
                      'printed': bytes(raw.data[nprint:]).decode(
                          'utf-8', 'backslashreplace')}
            if phase['reset'] or error:
                MessageDefManager.reset()
                result['left'] = {
                    i: len(v) for i, v in MessageDefManager.raised.items()}
            results.append(result)
        MessageDefManager.muted = False
        return results
    return entry


def execute(case, out):
    if case['ignore']:
        proc.with_env(out, {'ALINT_IGNORE': case['ignore']}, prepare,
                      execute_here, case)
    else:
        execute_here(case, out)


def simulate(case, out, plan):
    fs = vfs.FS()
    for k, phase in enumerate(case['phases']):
        built = conf.Built(phase['files'])
        cli.filesystem(phase['files'], built, '/conf{}'.format(k), fs)
    fs.seal()
    fs.plan = cli.plan_of(plan)
    vfs.fs_bufsize[0] = case['bufsize']
    ret = proc.run(out, fs, driver(case), ['driver'])
    vfs.fs_bufsize[0] = 8192
    if ret is not None:
        out.note(ret.extra, ret.error, ret.fs.log, ret.err)
    return ret


def execute_here(case, out):
    base = simulate(case, out, {})
    if base is None:
        return
    if base.error:
        out.violate('driver', base.trace)
        return
    bad = []
    for k, (phase, result) in enumerate(zip(case['phases'], base.extra)):
        bad += consistent(case, phase, result, k, {})
        expected = cli.normalise(cli.located(
            conf.Built(phase['files']).issues(), '/conf{}/'.format(k)))
        recorded = {}
        for class_, msgs in result['recorded'].items():
            for _, where, lineno, _ in msgs:
                key = (posixpath.normpath(where.rsplit(':', 1)[0]), lineno,
                       class_)
                recorded[key] = recorded.get(key, 0) + 1
        bad += [('recorded', 'in file set {}: {}'.format(k, i))
                for i in conf.diff(expected, recorded)]
        if result['error']:
            bad.append(('recorded', 'reading failed: ' + result['error']))
    out.sign([sorted(i['recorded']) for i in base.extra], case['ignore'])
    out.nontrivial = any(i['recorded'] for i in base.extra)
    if bad:
        report(out, base, {}, bad)
        out.hint = {'only': {}}
        return
    if 'only' in case:
        plans = [case['only']]
    else:
        plans = [{op[0]: case['fault']} for op in base.fs.log
                 if op[1] == 'out' or case['where'] == 'all' and (
                     op[1] in ('read', 'close'))]
        if len(plans) > 60:
            plans = plans[::len(plans) // 30]
    for plan in plans:
        run, owed = simulate(case, out, plan), {}
        if run is None:
            out.hint = {'only': plan}
            return
        bad = []
        if run.error:
            # (At the very end, and not within the code under test.)
            continue
        for k, (phase, result) in enumerate(zip(case['phases'], run.extra)):
            want = base.extra[k]
            bad += consistent(case, phase, result, k, owed)
            if result['error']:
                for class_, msgs in result['recorded'].items():
                    full = want['recorded'].get(class_, [])
                    if full[:len(msgs)] != msgs:
                        bad.append(('invented', 'file set {}: {}: {} is not '
                                    'the start of {}'.format(
                                        k, class_, msgs, full)))
            elif result['recorded'] != want['recorded']:
                bad.append(('disturbed', 'file set {}: recorded {}, and {} if '
                            'nothing fails'.format(
                                k, result['recorded'], want['recorded'])))
            if result['error'] and run.fs.log[int(list(plan)[0]) - 1][
                    1] == 'out' and plan_is_lost(plan) and not any(
                        owed.values()) and not bad:
                bad.append(('unrecorded', 'file set {}: one could not be '
                            'printed, and it was not recorded'.format(k)))
        if run.fs.fired:
            out.sign(run.fs.fired, [(i['error'], len(i['recorded']))
                                    for i in run.extra])
        if bad:
            report(out, run, plan, bad)
            out.hint = {'only': plan}
            return


def plan_is_lost(plan):
    return list(plan.values())[0][0] in ('errno', 'sigint')


def consistent(case, phase, result, k, owed):
    """
    What was recorded, passed on and printed is the same. (What could not be
    printed may be printed with the next one.)
    """
    bad = []
    if result.get('left'):
        bad.append(('reset', 'left after a reset: {}'.format(result['left'])))
    for name, times in case['listen']:
        msgs = result['recorded'].get(name, [])
        for n in range(times):
            got = [m for c, i, m in result['calls'] if (c, i) == (name, n)]
            if got != msgs:
                bad.append(('listener', 'listener {} of {} was called with '
                            '{}, and recorded is {}'.format(
                                n, name, got, msgs)))
    extra = {c for c, _, _ in result['calls']} - {c for c, _ in case['listen']}
    if extra:
        bad.append(('listener', 'called for {}'.format(extra)))
    want = {}
    patterns = case['ignore'].split(',') if case['ignore'] else []
    for class_, msgs in result['recorded'].items():
        if phase['muted'] or conf.suppressed(class_, patterns):
            continue
        for _, where, _, text in msgs:
            line = '{} {}: {}'.format(where, class_, text)
            line = line.encode('utf-8', 'backslashreplace').decode('utf-8')
            want[line] = want.get(line, 0) + 1
    have = {}
    for line in result['printed'].split('\n'):
        if line:
            if owed.get(line):
                owed[line] -= 1
            else:
                have[line] = have.get(line, 0) + 1
    if have != want:
        missing = [i for i in want if have.get(i, 0) < want[i]]
        extra = [i for i in have if have[i] > want.get(i, 0)]
        if result['error'] and not extra and len(missing) == 1:
            owed[missing[0]] = owed.get(missing[0], 0) + 1
        elif result['error'] and len(extra) == 1 and len(missing) == 1 and (
                missing[0].startswith(extra[0])):
            pass    # not all of it
        else:
            bad.append(('printed', 'file set {}: not printed: {}; printed '
                        'and not recorded: {}'.format(
                            k, missing[:3], extra[:3])))
    return bad


def report(out, run, plan, bad):
    for kind, text in bad[:3]:
        out.violate(kind, text)
    cli.describe(out, run, plan)


def shrink(case):
    for k in range(len(case['phases'])):
        if len(case['phases']) > 1:
            yield dict(case, phases=case['phases'][:k] +
                       case['phases'][k + 1:])
    for k, phase in enumerate(case['phases']):
        for smaller in conf.shrink_files(phase):
            yield dict(case, phases=case['phases'][:k] + [smaller] +
                       case['phases'][k + 1:])
    for n in range(len(case['listen'])):
        yield dict(case, listen=case['listen'][:n] + case['listen'][n + 1:])
    for key, simple in (('ignore', ''), ('bufsize', 8192)):
        if case[key] != simple:
            yield dict(case, **{key: simple})
