"""What the checks of the commands share."""
import posixpath

from .. import conf, proc, vfs
from ..proc import ERRNO

CONFDIR = '/etc/asterisk'

READ_FAULTS = (
    [['errno', i] for i in ('EIO', 'EACCES', 'ENOENT', 'EMFILE', 'ENOMEM',
                            'ESTALE', 'EPERM', 'ENFILE', 'ELOOP', 'ENOTDIR',
                            'EISDIR', 'EBADF', 'EINVAL', 'ENXIO', 'ETIMEDOUT',
                            'EOVERFLOW', 'ENODEV', 'EREMOTEIO',
                            'ENAMETOOLONG')] +
    [['sigint'], ['sigint_after'], ['short', 30], ['short', 1]])


def prepare():
    proc.preload('asterisklint.func_odbc', 'asterisklint.dialplan')
    proc.preload_mods()


def filesystem(files, built, dirname=CONFDIR, fs=None):
    if fs is None:
        fs = vfs.FS()
        for path in ('/home/user', '/work', '/tmp', CONFDIR):
            fs.mkdirs(path)
    for file, data in zip(files, built.data):
        path = posixpath.join(dirname, file['name'])
        fs.mkdirs(posixpath.dirname(path))
        fs.put(path, data)
    return fs


def contrib(fs, cmd):
    """The commands of contrib/commands, where users have them."""
    if cmd.split()[0] != 'vg':
        return
    where = '/home/user/.asterisklint/asterisklint/commands'
    with open(proc.REPO + '/contrib/commands/vg.py', 'rb') as fp:
        data = fp.read()
    fs.mkdirs(where)
    fs.put(where + '/vg.py', data)


def plan_of(plan):
    ret = {}
    for key, fault in plan.items():
        if fault[0] == 'errno':
            fault = ['errno', ERRNO[fault[1]]]
        elif fault[0] == 'partial':
            fault = ['partial', fault[1], ERRNO[fault[2]]]
        ret[int(key)] = list(fault)
    return ret


def located(issues, prefix):
    """{(name, line, class): n} with the names as they are printed."""
    return {(prefix + name, no, class_): n
            for (name, no, class_), n in issues.items()}


def visible(issues, ignore):
    patterns = ignore.split(',') if ignore else []
    return {k: n for k, n in issues.items()
            if not conf.suppressed(k[2], patterns)}


def normalise(found):
    """a/./b and a/b are the same file."""
    ret = {}
    for (name, no, class_), n in found.items():
        key = (posixpath.normpath(name), no, class_)
        ret[key] = ret.get(key, 0) + n
    return ret


def add(*dicts):
    ret = {}
    for one in dicts:
        for key, n in one.items():
            ret[key] = ret.get(key, 0) + n
    return ret


def describe(out, run, plan, text=''):
    out.trace.append('plan {}'.format(plan))
    for op in run.fs.log:
        out.trace.append('  {} {} {} {}'.format(*op))
    out.trace.append('exit {} {}'.format(run.exit, run.error or ''))
    out.trace.append('stderr: {}'.format(run.err))
