"""C11: parsers that run interleaved do not disturb each other."""
import errno
import gc
import threading

from .. import conf, core, proc, vfs
from . import cli

KINDS = ['lines', 'elements', 'elements', 'spaced', 'spaced', 'config',
         'config', 'dialplan', 'dialplan', 'odbc', 'odbc', 'bytes']
ENDS = ['finish', 'finish', 'finish', 'close', 'drop', 'keep', 'throw']
ERRORS = {'EIO': errno.EIO, 'ESTALE': errno.ESTALE}


def prepare():
    cli.prepare()


def generate(rng, tier):
    parsers = []
    for k in range(rng.choice([2, 2, 3, 4, 6])):
        kind = rng.choice(KINDS)
        if kind == 'odbc' or (kind != 'dialplan' and rng.random() < .3):
            lines = conf.func_odbc(rng, .3)[0]
        elif rng.random() < .5:
            lines = conf.dialplan(rng, .3, size=rng.choice([3, 10, 20]))
        else:
            lines = conf.rich_dialplan(rng)[:rng.choice([5, 20, 60])]
        files = conf.spread(rng, lines, 'root.conf',
                            nfiles=rng.choice([1, 2, 3]))
        # Blank lines: too few, too many.
        for file in files:
            for _ in range(rng.choice([0, 0, 1, 3])):
                at = rng.randrange(len(file['lines']) + 1)
                file['lines'][at:at + rng.choice([0, 0, 1])] = [
                    ['l', rng.choice(['', '', ';', '  ']), [], 0]]
        fault = None
        r = rng.random()
        if r < .2:
            fault = ['read', rng.randrange(len(files)), rng.randrange(30),
                     rng.choice(['EIO', 'ESTALE', 'KeyboardInterrupt',
                                 'MemoryError'])]
        elif r < .3:
            fault = ['open', rng.randrange(len(files)), 0, rng.choice(
                ['EIO', 'KeyboardInterrupt'])]
        parsers.append({
            'kind': kind, 'files': files, 'fault': fault,
            'end': rng.choice(ENDS), 'steps': rng.choice([0, 1, 3, 10, 40]),
            'twin': k > 0 and rng.random() < .15})
    # Some are read twice at the same time.
    for k, parser in enumerate(parsers):
        if parser['twin']:
            parser['files'] = parsers[k - 1]['files']
            parser['kind'] = parsers[k - 1]['kind']
    style = rng.choice(['fine', 'fine', 'runs', 'one_by_one'])
    schedule = []
    while len(schedule) < 60 * len(parsers):
        k = rng.randrange(len(parsers))
        schedule += [k] * (rng.choice([1, 5, 20]) if style == 'runs' else 1)
    if style == 'one_by_one':
        schedule = [i % len(parsers) for i in range(len(schedule))]
    return {'parsers': parsers, 'schedule': schedule,
            'reads': rng.random() < .4}


# -- one parser ---------------------------------------------------------------

class Failing:
    """A file of which the n-th line cannot be read, if at is not None."""
    def __init__(self, fp, name, at, exc, pause):
        self.fp, self.name, self.at, self.exc = fp, name, at, exc
        self.no, self.pause = 0, pause

    def __iter__(self):
        return self

    def __next__(self):
        self.pause()
        if self.no == self.at:
            raise self.exc
        self.no += 1
        return next(self.fp)

    def readline(self, *args):
        try:
            return next(self)
        except StopIteration:
            return b''

    def readlines(self, *args):
        return list(self)

    def read(self, *args):
        return b''.join(self)

    def fileno(self):
        return self.fp.fileno()

    closed = property(lambda self: self.fp.closed)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self.fp.close()


def error_of(name):
    if name == 'KeyboardInterrupt':
        return KeyboardInterrupt()
    if name == 'MemoryError':
        return MemoryError()
    return OSError(ERRORS[name], 'injected')


class Machine:
    """One parser, and what it gave so far."""
    def __init__(self, k, spec, reads):
        self.k, self.spec = k, spec
        self.reads, self.thread = reads, None
        self.dir = '{}/p{}'.format(cli.CONFDIR, k)
        self.seen = []
        self.steps = 0
        self.done = False
        self.program = self.run()

    def classes(self):
        import asterisklint
        from asterisklint.config import ConfigParser
        from asterisklint.configws import VerticalSpaceWarner
        from asterisklint.file import BinFileReader, FileReader
        return {
            'bytes': BinFileReader, 'lines': FileReader,
            'elements': type('E', (ConfigParser, FileReader), {}),
            'spaced': type('V', (
                VerticalSpaceWarner, ConfigParser, FileReader), {}),
            'config': asterisklint.FileConfigParser,
            'dialplan': asterisklint.FileDialplanParser,
            'odbc': asterisklint.FileFuncOdbcParser}

    def step(self):
        if self.done:
            return
        self.steps += 1
        if not self.reads:
            self.advance()
            return
        # Its thread runs until it gets to the end of a step, or waits for a
        # line of a file. No two of them ever run at a time.
        if self.thread is None:
            self.turn = threading.Semaphore(0)
            self.back = threading.Semaphore(0)
            self.thread = threading.Thread(target=self.run_all, daemon=True)
            self.thread.start()
        self.turn.release()
        self.back.acquire()

    def run_all(self):
        self.turn.acquire()
        while True:
            self.advance()
            if self.done:
                break
            self.pause()
        self.back.release()

    def pause(self):
        if self.thread is not None and (
                threading.current_thread() is self.thread):
            self.back.release()
            self.turn.acquire()

    def advance(self):
        try:
            next(self.program)
        except StopIteration:
            self.done = True
        except BaseException as exc:
            self.seen.append('failed: {} {}'.format(
                type(exc).__name__, str(exc)[:200]))
            self.done = True

    def run(self):
        spec = self.spec
        args = {}

        def other(path):
            if not self.reads:
                return open(path, 'rb')
            self.pause()
            return Failing(open(path, 'rb'), path, None, None, self.pause)
        if self.reads:
            args['opener'] = other
        if spec['fault']:
            what, target, at, name = spec['fault']
            bad = '{}/{}'.format(self.dir, spec['files'][min(
                target, len(spec['files']) - 1)]['name'])

            def opener(path):
                import posixpath
                if posixpath.normpath(path) == bad:
                    if what == 'open':
                        raise error_of(name)
                    return Failing(open(path, 'rb'), path, at,
                                   error_of(name), self.pause)
                return other(path)
            args['opener'] = opener
        parser = self.classes()[spec['kind']](**args)
        yield
        parser.include(self.dir + '/root.conf')
        yield
        it = iter(parser)
        yield
        count = 0
        kept = []
        for item in it:
            kept.append(item)
            self.seen.append(describe(item))
            count += 1
            yield
            if spec['end'] != 'finish' and count > spec['steps']:
                break
        else:
            self.seen.append('end')
        if spec['end'] == 'close' and hasattr(it, 'close'):
            it.close()
        elif spec['end'] == 'throw' and hasattr(it, 'throw'):
            try:
                it.throw(ValueError('thrown'))
            except (ValueError, RuntimeError, StopIteration):
                pass
        elif spec['end'] == 'drop':
            del it, parser
        yield
        # They can be used later on.
        for item in kept:
            if spec['kind'] == 'dialplan':
                item.walk_jump_destinations()
                yield
                self.seen.append(item.format_as_dialplan_show())
                yield
            else:
                self.seen.append(describe(item))
        if spec['end'] == 'keep':
            self.keep = parser, it


def describe(item):
    """In terms of text."""
    from asterisklint.configobj import Context, EmptyLine, Varset
    if isinstance(item, tuple):
        return [str(i) for i in item]
    if isinstance(item, EmptyLine):
        return ['empty', str(item.where), item.comment]
    if isinstance(item, Varset):
        return ['varset', str(item.where), item.variable, item.value,
                item.arrow, item.comment]
    if isinstance(item, Context):
        return ['context', type(item).__name__, item.name, str(item.where),
                [describe(item[i]) for i in range(len(item))]]
    return ['dialplan', item.format_as_dialplan_show()]


def driver(parsers, schedule, reads):
    def entry():
        from asterisklint.defines import MessageDefManager
        MessageDefManager.muted = True
        machines = {k: Machine(k, parsers[k], reads) for k in parsers}
        for n, k in enumerate(schedule):
            if k in machines:
                machines[k].step()
            if n % 50 == 49:
                gc.collect()
        # The rest.
        while not all(i.done for i in machines.values()):
            for machine in machines.values():
                machine.step()
        msgs = {}
        for name, found in MessageDefManager.raised.items():
            for i in found:
                msgs.setdefault(owner(i.where.filename), []).append(
                    '{} {}: {}'.format(i.where, name, i.message.format(
                        **i.fmtkwargs)))
        return {'seen': {k: m.seen for k, m in machines.items()},
                'steps': {k: m.steps for k, m in machines.items()},
                'msgs': msgs}
    return entry


def owner(filename):
    head = cli.CONFDIR + '/p'
    if not filename.startswith(head):
        return 'nobody'
    return int(filename[len(head):].split('/')[0])


def run(out, case, only=None):
    parsers = {k: spec for k, spec in enumerate(case['parsers'])
               if only is None or k == only}
    fs = vfs.FS()
    for path in ('/home/user', '/work'):
        fs.mkdirs(path)
    for k, spec in parsers.items():
        cli.filesystem(spec['files'], conf.Built(spec['files']),
                       '{}/p{}'.format(cli.CONFDIR, k), fs=fs)
    fs.seal()
    schedule = [i for i in case['schedule'] if only is None or i == only]
    res = proc.run(out, fs, driver(
        parsers, schedule, case.get('reads', False)), ['/usr/bin/test'])
    if res is None:
        return None
    if res.error:
        out.violate('died', '{} {}'.format(res.error, res.site))
        out.trace.append(res.trace or '')
        return None
    out.note(res.extra)
    return res.extra


def execute(case, out):
    together = run(out, case)
    if together is None:
        return
    out.nontrivial = any(together['msgs'].values()) and len(
        case['parsers']) > 1
    out.sign([(i['kind'], i['end'], i['fault'] and i['fault'][3])
              for i in case['parsers']])
    for k, spec in enumerate(case['parsers']):
        alone = run(out, case, k)
        if alone is None:
            return
        if spec['fault'] and any(str(i).startswith('failed')
                                 for i in alone['seen'][k]):
            out.fault('{} fails: {}'.format(*spec['fault'][::3]))
        if spec['end'] != 'finish' and alone['seen'][k]:
            out.fault('abandoned: ' + spec['end'])
        if not same('element', k, spec, alone['seen'][k],
                    together['seen'][k], out):
            return
        if not same('issue', k, spec, sorted(alone['msgs'].get(k, [])),
                    sorted(together['msgs'].get(k, [])), out):
            return
    if together['msgs'].get('nobody'):
        out.violate('nobody', 'issues at {}'.format(
            together['msgs']['nobody'][:3]))


def same(what, k, spec, want, have, out):
    if want == have:
        return True
    for n in range(max(len(want), len(have))):
        x = want[n] if n < len(want) else None
        y = have[n] if n < len(have) else None
        if x != y:
            break
    out.violate(what, 'parser {} ({}, {}): {} {} is {!r} with the others and '
                '{!r} alone'.format(k, spec['kind'], spec['end'], what, n,
                                    clip(y, x), clip(x, y)))
    out.trace.append('with the others: {}'.format(have))
    out.trace.append('alone: {}'.format(want))
    return False


def clip(x, y):
    if isinstance(x, str) and isinstance(y, str):
        for a, b in zip(x.split('\n'), y.split('\n')):
            if a != b:
                return a
    if isinstance(x, list) and isinstance(y, list):
        for a, b in zip(x, y):
            if a != b:
                return clip(a, b)
    return x if x is None else str(x)[:300]


def shrink(case):
    parsers = case['parsers']
    if case.get('reads'):
        yield dict(case, reads=False)
    for k in range(len(parsers)):
        if len(parsers) > 1:
            yield dict(case, parsers=parsers[:k] + parsers[k + 1:], schedule=[
                i - (i > k) for i in case['schedule'] if i != k])
    for keep in core.shrink_list(case['schedule']):
        yield dict(case, schedule=keep)
    for k, spec in enumerate(parsers):
        def with_spec(**new):
            return dict(case, parsers=parsers[:k] + [dict(spec, **new)] +
                        parsers[k + 1:])
        if spec['fault']:
            yield with_spec(fault=None)
        if spec['end'] != 'finish':
            yield with_spec(end='finish')
        for smaller in conf.shrink_files(dict(files=spec['files'])):
            yield with_spec(files=smaller['files'])
        for j, file in enumerate(spec['files']):
            for keep in core.shrink_list(file['lines']):
                new = [dict(i) for i in spec['files']]
                new[j]['lines'] = keep
                yield with_spec(files=new)
