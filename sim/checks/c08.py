"""C08: every file that is opened is closed, exactly once."""
import errno
import posixpath

from .. import conf, core, proc, vfs
from . import cli

prepare = cli.prepare

ERRORS = ['EIO', 'ENOENT', 'EACCES', 'EMFILE', 'ENOMEM', 'MemoryError',
          'ValueError', 'ESTALE', 'EISDIR']
READERS = ['FileReader', 'FileConfigParser', 'FileDialplanParser',
           'FileDialplanParser', 'FileFuncOdbcParser']


def generate(rng, tier):
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        reader = rng.choice(READERS)
        p_bad = rng.choice([0, .3])
        if reader == 'FileFuncOdbcParser':
            lines, root = conf.func_odbc(rng, p_bad)[0], 'func_odbc.conf'
        else:
            lines, root = conf.dialplan(rng, p_bad), 'extensions.conf'
        files = conf.spread(rng, lines, root, rng.choice(
            [1, 2, 3, 4, 6, 7]))
        tangle(rng, files)
        jobs.append({'reader': reader, 'files': files, 'also': rng.choice(
            [-1, -1, -1, len(files) - 1]), 'again': rng.random() < .2})
    return {'jobs': jobs, 'error': rng.choice(ERRORS),
            'second': rng.choice([None, None, None, 1, 2, 5])}


def tangle(rng, files):
    """More includes: of files that are included already, or being read."""
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        k = rng.randrange(len(files))
        target = rng.randrange(len(files) + (rng.random() < .2))
        style = 'quote'
        files[k]['lines'].insert(
            rng.randrange(len(files[k]['lines']) + 1),
            ['i', [target, style, rng.choice(['#include ', '#tryinclude '])],
             [], 0])


def error_of(kind):
    if kind == 'MemoryError':
        return MemoryError('injected')
    if kind == 'ValueError':
        return ValueError('injected')
    no = getattr(errno, kind)
    return OSError(no, 'injected')


class Store:
    """Files that count how they are opened, read and closed."""
    def __init__(self, plan, error):
        self.plan, self.error = plan, error
        self.n = 0
        self.log = []           # [name, path, failed]
        self.files = {}
        self.open = []
        self.all = []
        self.peak = 0

    def event(self, name, path):
        self.n += 1
        failed = self.n in self.plan
        self.log.append([name, path, failed])
        if failed:
            # (Opening a file fails as the system says.)
            raise error_of('EACCES' if name == 'open' and
                           self.error == 'MemoryError' else self.error)

    def opener(self, filename):
        path = posixpath.normpath(filename)
        self.event('open', path)
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, 'no such file', filename)
        fp = SimFile(self, filename, path, self.files[path])
        self.open.append(fp)
        self.all.append(fp)
        return fp


class SimFile:
    mode = 'rb'

    def __init__(self, store, name, path, data):
        self.store, self.name, self.path = store, name, path
        self.lines = split(data)
        self.closes = 0

    @property
    def closed(self):
        return bool(self.closes)

    def readline(self, size=-1):
        if self.closes:
            raise ValueError('read of closed file')
        self.store.event('read', self.path)
        return self.lines.pop(0) if self.lines else b''

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration()
        return line

    def read(self, size=-1):
        return b''.join(self)

    def readlines(self, hint=-1):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self.closes += 1
        if self in self.store.open:
            self.store.open.remove(self)
        self.store.event('close', self.path)


def split(data):
    ret = data.split(b'\n')
    return [i + b'\n' for i in ret[:-1]] + ([ret[-1]] if ret[-1] else [])


def driver(case, plan):
    def entry():
        import asterisklint
        from asterisklint.defines import MessageDefManager
        MessageDefManager.muted = True
        store = Store(plan, case['error'])
        results = []
        for j, job in enumerate(case['jobs']):
            built = conf.Built(job['files'])
            for file, data in zip(job['files'], built.data):
                store.files['/conf{}/{}'.format(j, file['name'])] = data
            class_ = getattr(asterisklint, job['reader'], None)
            if class_ is None:
                from asterisklint.file import FileReader as class_
            parser = class_(opener=store.opener)
            for _ in range(2 if job['again'] else 1):
                first = len(store.all)
                start = len(store.log)
                error, keep = None, []
                try:
                    parser.include('/conf{}/{}'.format(
                        j, job['files'][0]['name']))
                    if job['also'] > 0:
                        try:
                            parser.include('/conf{}/{}'.format(
                                j, job['files'][job['also']]['name']))
                        except (OSError, ValueError):
                            pass    # go on without
                    for element in parser:
                        keep.append(element)
                except Exception as exc:
                    error = '{}: {}'.format(type(exc).__name__, exc)
                    failure = exc   # noqa: keeps the frames alive, as a
                    keep.append(failure)            # caller may do
                results.append({
                    'job': j, 'error': error,
                    'log': store.log[start:],
                    'files': [[i.path, i.closes] for i in
                              store.all[first:]],
                    'open': [i.path for i in store.open]})
        return results
    return entry


def simulate(case, out, plan):
    fs = vfs.FS()
    for j, job in enumerate(case['jobs']):
        cli.filesystem(job['files'], conf.Built(job['files']),
                       '/conf{}'.format(j), fs)
    fs.seal()
    ret = proc.run(out, fs, driver(case, plan), ['driver'])
    if ret is not None:
        out.note(ret.extra, ret.error)
        if ret.extra:
            steps = sum(len(i['log']) for i in ret.extra)
            out.steps += steps
            for result in ret.extra:
                for name, _, failed in result['log']:
                    if failed:
                        out.fault('{}_{}'.format(name, case['error']))
    return ret


def expected_opens(job, j):
    """What is opened, and how many are open then, if nothing fails."""
    files = job['files']
    ret = []

    def walk(k, stack):
        stack = stack + (k,)
        ret.append((path(k), len(stack)))
        lines(k, stack)

    def lines(k, stack):
        for line in files[k]['lines']:
            if line[0] != 'i':
                continue
            target = line[1][0]
            if target < len(files) and target not in stack:
                walk(target, stack)

    def path(k):
        return '/conf{}/{}'.format(j, files[k]['name'])

    if job['reader'] == 'FileReader':       # does not know of includes
        ret = [(path(0), 1)]
        if job['also'] > 0:
            ret.append((path(job['also']), 2))
    elif job['also'] > 0:
        # Read in reverse.
        ret.append((path(0), 1))
        walk_also = (0,)
        ret.append((path(job['also']), 2))
        lines(job['also'], walk_also + (job['also'],))
        lines(0, (0,))
    else:
        walk(0, ())
    return ret


def judge(case, run, disturbed):
    bad = []
    if run.error:
        return [('driver', run.trace)]
    for result in run.extra:
        job = case['jobs'][result['job']]
        failed = [i for i in result['log'] if i[2]]
        for path, closes in result['files']:
            if closes != 1:
                bad.append(('unclosed' if not closes else 'closed twice',
                            '{} was closed {} times{}'.format(
                                path, closes, ' after {} of {} failed'.format(
                                    *failed[0][:2]) if failed else '')))
                break
        count = 0
        opens = []      # (of what is there)
        for name, path, fail in result['log']:
            if name == 'open':
                if 'nosuch' in path:
                    continue
                opens.append((path, count + 1))
                if not fail:
                    count += 1
            elif name == 'close':
                count -= 1
        want = expected_opens(job, result['job'])
        if not failed and not result['error']:
            if [i[0] for i in opens] != [i[0] for i in want]:
                bad.append(('opens', 'opened {}, expected {}'.format(
                    opens, want)))
            else:
                for (path, have), (_, limit) in zip(opens, want):
                    if have > limit:
                        bad.append(('too many', '{} files open on the '
                                    'inclusion of {}, nested {} deep'.format(
                                        have, path, limit)))
                        break
        if result['error'] and not failed:
            bad.append(('failed', 'reading failed by itself: ' +
                        result['error']))
        peak = max([n for _, n in opens] or [0])
        deepest = max([n for _, n in want] or [0])
        if peak > deepest:
            bad.append(('too many', '{} files open at a time, and the '
                        'deepest include is {} deep'.format(peak, deepest)))
        lost = [i for i in failed if i[0] == 'read']
        if lost and not result['error']:
            bad.append(('hidden', 'the failure to read {} was not '
                        'reported'.format(lost[0][1])))
    return bad


def execute(case, out):
    base = simulate(case, out, ())
    if base is None:
        return
    bad = judge(case, base, False)
    if bad:
        report(out, base, (), bad)
        out.hint = {'only': []}
        return
    total = sum(len(i['log']) for i in base.extra)
    out.nontrivial = any(len(j['files']) > 1 for j in case['jobs'])
    out.sign([[e[:1] for e in i['log']] for i in base.extra])
    if 'only' in case:
        plans = [case['only']]
    else:
        plans = [[n] + ([n + case['second']] if case['second'] else [])
                 for n in range(1, total + 1)]
        if len(plans) > 120:
            plans = plans[::len(plans) // 60]
    for plan in plans:
        run = simulate(case, out, plan)
        if run is None:
            out.hint = {'only': plan}
            return
        bad = judge(case, run, True)
        if run.extra:
            out.sign([(i['error'], [e[0] for e in i['log'][-6:]])
                      for i in run.extra])
        if bad:
            report(out, run, plan, bad)
            out.hint = {'only': plan}
            return


def report(out, run, plan, bad):
    for kind, text in bad[:3]:
        out.violate(kind, text)
    out.trace.append('failing calls: {}'.format(plan))
    for result in run.extra or ():
        for event in result['log']:
            out.trace.append('  {} {} {}'.format(
                event[0], event[1], 'FAILED' if event[2] else ''))
        out.trace.append('  -> {}'.format(result['error']))


def shrink(case):
    for k in range(len(case['jobs'])):
        if len(case['jobs']) > 1:
            yield dict(case, jobs=case['jobs'][:k] + case['jobs'][k + 1:])
    if case['second']:
        yield dict(case, second=None)
    for k, job in enumerate(case['jobs']):
        def with_job(new):
            return dict(case, jobs=case['jobs'][:k] + [new] +
                        case['jobs'][k + 1:])
        if job['also'] > 0:
            yield with_job(dict(job, also=-1))
        if job['again']:
            yield with_job(dict(job, again=False))
        for f, file in enumerate(job['files']):
            for keep in core.shrink_list(file['lines']):
                new = [dict(i) for i in job['files']]
                new[f]['lines'] = keep
                yield with_job(dict(job, files=new))
