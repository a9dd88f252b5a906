"""
Do programs that use the standard library in other ways than asterisklint does
today stay within the simulated file system? (python3 check.py selftest)
"""
import sys

from . import core, proc, vfs


def use_tempfile():
    import os
    import tempfile
    with tempfile.NamedTemporaryFile(dir='/work') as fp:
        fp.write(b'x')
        assert os.path.exists(fp.name)
    assert not os.path.exists(fp.name)
    with tempfile.TemporaryDirectory() as top:
        with open(top + '/a', 'w') as fp:
            fp.write('a')
        os.makedirs(top + '/b/c')
    assert not os.path.exists(top)
    fd, name = tempfile.mkstemp(dir='/work')
    os.write(fd, b'abc')
    os.close(fd)
    assert os.path.getsize(name) == 3
    os.remove(name)
    with tempfile.TemporaryFile(dir='/work') as fp:
        fp.write(b'x')
    with tempfile.SpooledTemporaryFile(1) as fp:
        fp.write(b'xx')


def use_shutil():
    import os
    import shutil
    for copy in (shutil.copyfile, shutil.copy, shutil.copy2):
        copy('/etc/a.conf', '/work/copy')
        assert open('/work/copy', 'rb').read() == b'one\ntwo\n'
        os.unlink('/work/copy')
    shutil.copy2('/etc/a.conf', '/work/a')
    shutil.copymode('/etc/b.conf', '/work/a')
    shutil.copystat('/etc/b.conf', '/work/a')
    shutil.move('/work/a', '/work/b')
    shutil.copytree('/etc', '/work/etc')
    assert os.path.exists('/work/etc/a.conf')
    shutil.rmtree('/work/etc')
    assert not os.path.exists('/work/etc')
    shutil.chown('/work/b', 0, 0)
    os.unlink('/work/b')


def use_pathlib():
    import pathlib
    path = pathlib.Path('/work') / 'p'
    path.write_text('x\n')
    assert path.read_bytes() == b'x\n' and path.exists()
    path.chmod(0o600)
    path.rename('/work/q')
    path = pathlib.Path('/work/q')
    path.replace('/work/r')
    path = pathlib.Path('/work/r')
    assert path.is_file() and path.stat().st_size == 2
    assert [i.name for i in pathlib.Path('/work').iterdir()] == ['r']
    assert list(pathlib.Path('/work').glob('*')) == [path]
    assert list(pathlib.Path('/work').rglob('r')) == [path]
    pathlib.Path('/work/s').symlink_to('r')
    assert pathlib.Path('/work/s').resolve() == path
    with path.open('a') as fp:
        fp.write('y')
    pathlib.Path('/work/s').unlink()
    path.unlink()
    pathlib.Path('/work/d/e').mkdir(parents=True, exist_ok=True)
    pathlib.Path('/work/d/e').rmdir()
    pathlib.Path('/work/d').rmdir()
    pathlib.Path('/work/t').touch()
    assert pathlib.Path('/work/t').samefile('/work/t')
    pathlib.Path('/work/t').unlink(missing_ok=True)


def use_os():
    import glob
    import os
    fd = os.open('/work/x', os.O_RDWR | os.O_CREAT | os.O_EXCL, 0o600)
    with os.fdopen(fd, 'w+b') as fp:
        fp.write(b'12345')
        fp.flush()
        os.fsync(fp.fileno())
        os.fchmod(fp.fileno(), 0o640)
        os.fchown(fp.fileno(), 0, 0)
        assert os.fstat(fp.fileno()).st_size == 5
        fp.seek(1)
        assert fp.read(2) == b'23'
        fp.truncate(3)
    dirfd = os.open('/work', os.O_RDONLY | os.O_DIRECTORY)
    os.fsync(dirfd)
    assert os.stat('x', dir_fd=dirfd).st_size == 3
    os.rename('x', 'y', src_dir_fd=dirfd, dst_dir_fd=dirfd)
    os.unlink('y', dir_fd=dirfd)
    os.close(dirfd)
    os.mkdir('/work/d')
    for name in 'abc':
        with open('/work/d/' + name, 'x') as fp:
            fp.write(name)
    assert sorted(i.name for i in os.scandir('/work/d')) == list('abc')
    assert [sorted(i[2]) for i in os.walk('/work/d')] == [list('abc')]
    assert sorted(glob.glob('/work/d/*')) == [
        '/work/d/' + i for i in 'abc']
    os.renames('/work/d/a', '/work/e/a')
    os.link('/work/e/a', '/work/e/b')
    assert os.path.samefile('/work/e/a', '/work/e/b')
    os.replace('/work/e/a', '/work/e/c')
    os.symlink('c', '/work/e/l')
    assert os.path.realpath('/work/e/l') == '/work/e/c'
    assert os.path.lexists('/work/e/l') and os.path.islink('/work/e/l')
    os.truncate('/work/e/c', 0)
    os.utime('/work/e/c')
    assert os.access('/work/e/c', os.R_OK)
    os.chdir('/work/e')
    assert os.getcwd() == '/work/e' and os.path.abspath('c') == '/work/e/c'
    os.chdir('/work')
    import shutil
    shutil.rmtree('/work/e')
    shutil.rmtree('/work/d')


def use_others():
    import codecs
    import filecmp
    import fileinput
    import io
    import linecache
    import os
    import tokenize
    with io.open('/work/x.py', 'wb') as fp:
        fp.write(b'a = 1\nb = 2\n')
    with codecs.open('/work/x.py', 'r', 'utf-8') as fp:
        assert fp.read() == 'a = 1\nb = 2\n'
    with tokenize.open('/work/x.py') as fp:
        assert fp.readline() == 'a = 1\n'
    assert linecache.getline('/work/x.py', 2) == 'b = 2\n'
    with fileinput.input('/work/x.py', inplace=True) as fp:
        for line in fp:
            print(line.replace('a', 'c'), end='')
    assert open('/work/x.py').read() == 'c = 1\nb = 2\n'
    assert filecmp.cmp('/work/x.py', '/work/x.py', shallow=False)
    os.unlink('/work/x.py')


USES = [use_tempfile, use_shutil, use_pathlib, use_os, use_others]


def main():
    vfs.setup_prefixes(core.VERIF, proc.REPO)
    # (Imported before and after: both must do.)
    import fileinput, pathlib, shutil, tempfile, tokenize   # noqa
    vfs.install()
    real = []

    def audit(event, args):
        if vfs.current is not None and event in (
                'open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir',
                'os.link', 'os.symlink', 'os.truncate', 'os.chmod',
                'os.chown', 'os.utime', 'os.scandir', 'os.listdir'):
            if not isinstance(args[0], int) and not str(args[0]).startswith(
                    tuple(vfs.REAL_PREFIXES)):
                real.append((event, args[0]))
    sys.addaudithook(audit)
    bad = 0
    for use in USES:
        fs = vfs.FS()
        for path in ('/home/user', '/work', '/tmp', '/etc'):
            fs.mkdirs(path)
        fs.put('/etc/a.conf', b'one\ntwo\n')
        fs.put('/etc/b.conf', b'three\n', 0o640, 0, 0)
        fs.cwd = '/work'
        fs.seal()
        before = fs.tree()
        out = core.Outcome()
        ret = proc.run(out, fs, lambda: (use(), list(real))[1], ['x'])
        left = ret and {k for k, v in ret.fs.tree().items()
                        if before.get(k) != v}
        if not ret or ret.exit or ret.extra or left or not ret.fs.log:
            bad += 1
            print('{}: {} {} {}\n{}'.format(
                use.__name__, out.violations, ret and ret.extra, left,
                ret and ret.trace))
        else:
            print('{}: {} operations, all simulated'.format(
                use.__name__, len(ret.fs.log)))
    return bad
