"""
A simulated process: one of the repository's programs, run for real in a fork
of the worker, with the simulated file system, streams and environment.
"""
import errno
import gc
import importlib.machinery
import io
import os
import pickle
import runpy
import sys
import traceback

from . import vfs
from .core import REPO, Outcome, child_result

SCRIPT = REPO + '/scripts/asterisklint'


class StreamRaw(io.RawIOBase):
    """stdout or stderr: every write is an operation that may fail."""
    def __init__(self, fs, name):
        self.fs, self.name, self.data = fs, name, bytearray()

    def writable(self):
        return True

    def write(self, data):
        data = bytes(data)
        fault = self.fs.step('out', self.name, can=('short',))
        if fault and fault[0] == 'short' and len(data) > 1:
            self.fs._fire('short_write')
            data = data[:max(1, fault[1] * len(data) // 100)]
        self.data += data
        self.fs.done(fault)
        return len(data)


class StdinRaw(io.RawIOBase):
    def __init__(self, fs, data):
        self.fs, self.data = fs, data
        self.asked = None       # what had been written by the first read
        self.before = lambda: b''

    def readable(self):
        return True

    def readinto(self, buf):
        if self.asked is None:
            self.asked = self.before()
        fault = self.fs.step('in', '<stdin>')
        chunk = self.data[:len(buf)]
        self.data = self.data[len(chunk):]
        buf[:len(chunk)] = chunk
        self.fs.done(fault)
        return len(chunk)


class Result:
    def __init__(self):
        self.fs = None
        self.exit = None            # exit status, None if it was killed
        self.error = None           # 'ExceptionType: text', if uncaught
        self.trace = None
        self.out = self.err = self.asked = ''
        self.extra = None
        self.site = None            # where the uncaught exception was raised
        self.cause = None


def forget_package():
    for name in list(sys.modules):
        if name == 'asterisklint' or name.startswith('asterisklint.'):
            del sys.modules[name]


_code_cache = {}
load_hook = [None]      # called when a module of the repository is executed


def cache_code():
    """Compile every module once per worker, and never use .pyc files."""
    loader = importlib.machinery.SourceFileLoader
    if getattr(loader, '_sim_cached', False):
        return
    orig = loader.get_code

    def get_code(self, fullname):
        if vfs.current is not None and not vfs.is_real(self.path):
            return orig(self, fullname)
        if not self.path.startswith(REPO + '/'):
            return orig(self, fullname)
        key = (fullname, self.path)
        if key not in _code_cache:
            _code_cache[key] = self.source_to_code(
                self.get_data(self.path), self.path)
        return _code_cache[key]

    def exec_module(self, module):
        path = getattr(self, 'path', '')
        ours = load_hook[0] and path.startswith(REPO + '/')
        if ours:
            load_hook[0]('load', path)
        real_exec(self, module)
        if ours and load_hook[0]:
            load_hook[0]('loaded', path)

    def get_data(self, path):
        if vfs.current is None or vfs.is_real(path):
            return real_data(self, path)
        with io.open(path, 'rb') as fp:
            return fp.read()

    def path_stats(self, path):
        if vfs.current is None or vfs.is_real(path):
            return real_stats(self, path)
        st = os.stat(path)
        return {'mtime': 0, 'size': st.st_size}

    real_data, real_stats = loader.get_data, loader.path_stats
    real_exec = loader.exec_module
    loader.exec_module = exec_module
    loader.get_code = get_code
    loader.get_data = get_data
    loader.path_stats = path_stats
    loader._sim_cached = True


def preload(*names):
    """Import the code under test, without creating any of its singletons."""
    import importlib
    cache_code()
    for name in ('asterisklint', 'asterisklint.main',
                 'asterisklint.mainutil') + names:
        importlib.import_module(name)


def preload_mods():
    """Have the code of all app modules compiled."""
    import importlib
    for sub in ('app', 'func'):
        base = os.path.join(REPO, 'asterisklint', sub, 'v13')
        for name in sorted(os.listdir(base)):
            if name.endswith('.py'):
                importlib.import_module(
                    'asterisklint.{}.v13.{}'.format(sub, name[:-3]))
    base = os.path.join(REPO, 'asterisklint', 'app', 'vall')
    for name in sorted(os.listdir(base)):
        if name.endswith('.py'):
            importlib.import_module('asterisklint.app.vall.' + name[:-3])


def precompile(*subs):
    """Have the code of these packages at hand, and do not import it."""
    cache_code()
    for sub in subs:
        for top, dirs, names in os.walk(os.path.join(
                REPO, 'asterisklint', sub)):
            dirs.sort()
            for name in sorted(names):
                if not name.endswith('.py'):
                    continue
                path = os.path.join(top, name)
                module = path[len(REPO) + 1:-3].replace('/', '.')
                if name == '__init__.py':
                    module = module[:-9]
                importlib.machinery.SourceFileLoader(
                    module, path).get_code(module)


def _describe(exc):
    parts = []
    seen = exc
    while seen is not None:
        parts.append('{}: {}'.format(type(seen).__name__, seen))
        seen = seen.__cause__
    return ' <- '.join(parts)


def _site(exc):
    """The innermost frame in the repository: 'file:function'."""
    while exc.__cause__ is not None:
        exc = exc.__cause__
    ret = None
    for frame in traceback.extract_tb(exc.__traceback__):
        if frame.filename.startswith(REPO + '/'):
            ret = '{}:{}'.format(frame.filename[len(REPO) + 1:], frame.name)
    return ret


def _child(fs, entry, argv, env, stdin, fresh, setup, collect):
    ret = Result()
    os.environ.clear()
    os.environ.update({'HOME': '/home/user', 'PATH': '/usr/bin',
                       'LC_ALL': 'C.UTF-8'})
    os.environ.update(env)
    if fresh:
        forget_package()
    sys.argv = list(argv)
    out, errs = StreamRaw(fs, '<stdout>'), StreamRaw(fs, '<stderr>')
    sys.stdout = io.TextIOWrapper(
        io.BufferedWriter(out, 8192), 'utf-8', 'surrogateescape')
    sys.stderr = io.TextIOWrapper(
        io.BufferedWriter(errs, 8192), 'utf-8', 'backslashreplace',
        line_buffering=True)
    stdin = StdinRaw(fs, stdin)
    stdin.before = lambda: bytes(out.data + b'\n' + errs.data)
    sys.stdin = io.TextIOWrapper(io.BufferedReader(stdin), 'utf-8')
    state = setup() if setup else None
    vfs.enter(fs)
    try:
        try:
            value = entry()
            code = 0
            ret.extra = value
        except SystemExit as exc:
            code = exc.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                _quiet(lambda: print(code, file=sys.stderr))
                code = 1
        except vfs.Crash:
            raise
        except BaseException as exc:
            ret.error = _describe(exc)
            ret.site = _site(exc)
            ret.trace = traceback.format_exc()
            code = 130 if isinstance(exc, KeyboardInterrupt) else 1
            _quiet(lambda: sys.stderr.write(
                'Traceback (most recent call last):\n' + ret.error + '\n'))
        # What the interpreter does at the end.
        if not _quiet(sys.stdout.flush):
            code = 120
        if not _quiet(sys.stderr.flush):
            code = 120
        ret.exit = code & 0xff
    except vfs.Crash as exc:
        ret.exit = None
        if 'step budget' in str(exc):
            ret.error = 'step budget'
    finally:
        vfs.leave()
    ret.out = bytes(out.data).decode('utf-8', 'backslashreplace')
    ret.err = bytes(errs.data).decode('utf-8', 'backslashreplace')
    if stdin.asked is not None:
        ret.asked = stdin.asked.decode('utf-8', 'surrogateescape')
    if collect:
        ret.extra = collect(state, ret)
    observer, fs.observer = fs.observer, None
    order, fs.dir_order = fs.dir_order, None
    ret.fs = pickle.loads(pickle.dumps(_strip(fs)))
    ret.observed = getattr(observer, 'report', None)
    return ret


def _strip(fs):
    fs.fds = {k: v.path for k, v in fs.fds.items()}     # still open
    return fs


def _quiet(func):
    try:
        func()
    except vfs.Crash:
        raise
    except BaseException:
        return False
    return True


def with_env(out, env, prepare, func, *args):
    """
    Call func(*args, out) in a fork which has the package imported anew, in
    another environment.
    """
    def child():
        os.environ.update(env)
        forget_package()
        prepare()
        gc.collect()
        gc.freeze()
        sub = Outcome()
        func(*(args + (sub,)))
        sub.digest = sub.digest.hexdigest()
        return sub
    sub = child_result(out, child)
    if sub is None:
        return
    out.violations += sub.violations
    for kind, n in sub.faults.items():
        out.fault(kind, n)
    for name, n in sub.probes.items():
        out.probe(name, n)
    out.runs += sub.runs
    out.steps += sub.steps
    out.signatures |= sub.signatures
    out.nontrivial = out.nontrivial or sub.nontrivial
    out.note(sub.digest)
    out.trace += sub.trace
    out.hint = sub.hint


def run(out, fs, entry, argv, env=(), stdin=b'', fresh=False, setup=None,
        collect=None):
    """
    Run it. Returns a Result, or None if there is none (and a violation
    was recorded).
    """
    ret = child_result(out, _child, fs, entry, argv, dict(env), stdin, fresh,
                       setup, collect)
    if ret is None:
        return None
    out.runs += 1
    out.steps += ret.fs.opno
    for kind in ret.fs.fired:
        out.fault(kind)
    if ret.error == 'step budget':
        out.violate('hang', 'step budget of {} simulated operations used up '
                    '({})'.format(fs.max_ops, ' '.join(argv)))
        return None
    return ret


def script(path):
    def entry():
        # As the interpreter does for a script.
        sys.path.insert(0, os.path.dirname(path))
        runpy.run_path(path, run_name='__main__')
    return entry


def cli(out, fs, args, **kwargs):
    """The asterisklint command, through its installed entry point."""
    return run(out, fs, script(SCRIPT), [SCRIPT] + list(args), **kwargs)


ERRNO = {name: getattr(errno, name) for name in (
    'EIO', 'ENOSPC', 'EMFILE', 'EACCES', 'EPERM', 'EROFS', 'EDQUOT', 'ENOENT',
    'EPIPE', 'EINTR', 'ENOMEM', 'ESTALE', 'ENFILE', 'ELOOP', 'EBUSY',
    'EXDEV', 'ENOTDIR', 'EISDIR', 'EBADF', 'EINVAL', 'ENXIO', 'ETIMEDOUT',
    'EOVERFLOW', 'ENODEV', 'EREMOTEIO', 'ENAMETOOLONG')}
