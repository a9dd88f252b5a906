"""
A simulated POSIX file system, the only storage the code under test sees.

It lives in memory, keeps what a crash keeps and what a power loss keeps
apart, and asks a fault plan at every single operation what should happen.
The seams are the functions of the os module and open(), which are patched
once, before the code under test is imported; outside of a simulation, and
for paths below the real prefixes (the interpreter and the checked out code),
they pass straight through.
"""
import builtins
import errno
import io
import os
import stat as stat_
import sys
import tempfile
import types

FD_BASE = 1000000


class Crash(BaseException):
    """The simulated process has died: nothing may run after this."""


class HarnessError(Exception):
    """The simulator cannot do what was asked of it."""


EPOCH = 10 ** 18
TICK = 10 ** 7          # every operation takes 10 ms


class Inode:
    __slots__ = ('ino', 'kind', 'mode', 'uid', 'gid', 'nlink', 'data',
                 'target', 'entries', 'synced', 'wlog', 'dev', 'mount',
                 'mtime')

    def __init__(self, ino, kind, mode, uid, gid):
        self.ino, self.kind, self.mode = ino, kind, mode
        self.uid, self.gid, self.nlink = uid, gid, 0
        self.data = bytearray() if kind == 'f' else None
        self.entries = {} if kind == 'd' else None
        self.target = None
        self.synced = b''       # what the disk has for sure
        self.wlog = []          # writes the disk may or may not have
        self.dev = 77           # the device it is on
        self.mount = False      # something is mounted right here
        self.mtime = EPOCH      # nanoseconds

    def copy(self):
        new = Inode(self.ino, self.kind, self.mode, self.uid, self.gid)
        new.nlink, new.target, new.synced = self.nlink, self.target, self.synced
        new.data = None if self.data is None else bytearray(self.data)
        new.entries = None if self.entries is None else dict(self.entries)
        new.wlog = list(self.wlog)
        new.dev, new.mount, new.mtime = self.dev, self.mount, self.mtime
        return new


class OpenFile:
    __slots__ = ('inode', 'flags', 'pos', 'path')

    def __init__(self, inode, flags, path):
        self.inode, self.flags, self.path, self.pos = inode, flags, path, 0


def err(code, *names):
    return OSError(code, os.strerror(code), *names)


class FS:
    def __init__(self, euid=0, egid=0, cwd='/work', fd_limit=1024):
        self.inodes = {}
        self.next_ino = 1
        self.euid, self.egid, self.cwd = euid, egid, cwd
        self.umask = 0o022
        self.fd_limit = fd_limit
        self.fds = {}
        self.next_fd = FD_BASE
        self.root = self._new('d', 0o755, 0, 0).ino
        self.journal = []       # metadata operations since the start
        self.barrier = 0        # journal[:barrier] is durable
        self.base = None        # what the disk had at the start
        # The schedule.
        self.opno = 0
        self.plan = {}          # opno -> fault
        self.log = []           # (opno, name, paths, outcome)
        self.fired = []         # fault kinds that did fire
        self.dead = False
        self.observer = None
        self.opened = []        # (path, write?)
        self.max_ops = 200000
        self.dir_order = None   # None or a function
        self.max_open = 0
        self.readpos = {}       # inode number -> bytes handed out
        self.read_to_end = set()
        self.bad = {}           # inode number -> errno, for the whole run

    # -- construction -------------------------------------------------

    def _new(self, kind, mode, uid, gid, parent=None):
        node = Inode(self.next_ino, kind, mode, uid, gid)
        if parent is not None:
            node.dev = parent.dev
        self.next_ino += 1
        self.inodes[node.ino] = node
        return node

    def mkdirs(self, path, mode=0o755, uid=0, gid=0):
        node = self.inodes[self.root]
        for part in [i for i in path.split('/') if i]:
            if part not in node.entries:
                new = self._new('d', mode, uid, gid, node)
                new.nlink = 1
                node.entries[part] = new.ino
            node = self.inodes[node.entries[part]]
        return node

    def put(self, path, data, mode=0o644, uid=0, gid=0):
        parent = self.mkdirs(os.path.dirname(path))
        node = self._new('f', mode, uid, gid, parent)
        node.data[:] = data
        node.synced = bytes(data)
        node.nlink = 1
        parent.entries[os.path.basename(path)] = node.ino
        return node

    def put_link(self, path, target):
        parent = self.mkdirs(os.path.dirname(path))
        node = self._new('l', 0o777, 0, 0, parent)
        node.target = target
        node.nlink = 1
        parent.entries[os.path.basename(path)] = node.ino
        return node

    def put_hard(self, path, node):
        parent = self.mkdirs(os.path.dirname(path))
        if parent.dev == node.dev:
            parent.entries[os.path.basename(path)] = node.ino
            node.nlink += 1

    def mount(self, path, dev):
        """The directory (still empty) or file is a mount of its own."""
        node = self.mkdirs(path) if not self.lookup(path) else (
            self.lookup(path))
        assert not node.entries, path
        node.dev, node.mount = dev, True

    def lookup(self, path):
        node = self.inodes[self.root]
        for part in [i for i in path.split('/') if i]:
            ino = (node.entries or {}).get(part)
            if ino is None:
                return None
            node = self.inodes[ino]
        return node

    def seal(self):
        """Everything so far is on the disk."""
        for node in self.inodes.values():
            if node.kind == 'f':
                node.synced, node.wlog = bytes(node.data), []
        self.journal, self.barrier = [], 0
        self.base = {k: v.copy() for k, v in self.inodes.items()}

    # -- lookups (by the harness, not by the code under test) ---------

    def _abs(self, path):
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if '\0' in path:
            raise ValueError('embedded null byte')
        if path == '':
            raise err(errno.ENOENT, path)
        if not path.startswith('/'):
            path = self.cwd + '/' + path
        return path

    def _walk(self, path, follow=True, inodes=None, depth=0):
        """Returns (parent_inode, name, inode or None)."""
        inodes = self.inodes if inodes is None else inodes
        orig = path
        path = self._abs(path)
        stack = []
        node = inodes[self.root]
        parts = [i for i in path.split('/') if i and i != '.']
        must_dir = path.endswith('/')
        if not parts:
            return node, '', node
        hops = 0
        i = 0
        while i < len(parts):
            part = parts[i]
            last = (i == len(parts) - 1)
            if node.kind != 'd':
                raise err(errno.ENOTDIR, orig)
            if len(part) > 255:
                raise err(errno.ENAMETOOLONG, orig)
            if self.euid != 0 and not self._may(node, 1):
                raise err(errno.EACCES, orig)
            if part == '..':
                node = stack.pop() if stack else inodes[self.root]
                i += 1
                if last:
                    return node, '', node
                continue
            child = node.entries.get(part)
            child = None if child is None else inodes.get(child)
            if child is not None and child.ino in self.bad and (
                    inodes is self.inodes):
                if self.log and not self.log[-1][3]:
                    self.log[-1][3] = 'bad inode'
                raise err(self.bad[child.ino], orig)
            if child is None:
                if last:
                    return node, part, None
                raise err(errno.ENOENT, orig)
            if child.kind == 'l' and (not last or follow or must_dir):
                hops += 1
                if hops > 40:
                    raise err(errno.ELOOP, orig)
                rest = parts[i + 1:]
                target = child.target
                tparts = [j for j in target.split('/') if j and j != '.']
                parts = tparts + rest
                if target.startswith('/'):
                    stack, node = [], inodes[self.root]
                i = 0
                if not parts:
                    return node, '', node
                continue
            if last:
                if must_dir and child.kind != 'd':
                    raise err(errno.ENOTDIR, orig)
                return node, part, child
            stack.append(node)
            node = child
            i += 1
        raise HarnessError(path)

    def node(self, path, follow=True):
        bad, self.bad = self.bad, {}
        try:
            return self._walk(path, follow)[2]
        except OSError:
            return None
        finally:
            self.bad = bad

    def content(self, path):
        node = self.node(path)
        if node is None or node.kind != 'f':
            return None
        return bytes(node.data)

    def tree(self, inodes=None):
        """{path: (kind, mode, uid, gid, content or target)}"""
        inodes = self.inodes if inodes is None else inodes
        ret = {}

        def rec(node, path):
            for name in sorted(node.entries):
                child = inodes.get(node.entries[name])
                if child is None:
                    continue
                cpath = path + '/' + name
                if child.kind == 'd':
                    ret[cpath] = ('d', child.mode, child.uid, child.gid, None)
                    rec(child, cpath)
                elif child.kind == 'l':
                    ret[cpath] = ('l', 0, 0, 0, child.target)
                else:
                    ret[cpath] = ('f', child.mode, child.uid, child.gid,
                                  bytes(child.data))
        rec(inodes[self.root], '')
        return ret

    def after_power_loss(self, rng):
        """Another FS, with what a disk may have after a power loss now."""
        new = FS(self.euid, self.egid, self.cwd, self.fd_limit)
        inodes = {k: v.copy() for k, v in self.base.items()}
        keep = self.barrier
        if len(self.journal) > keep:
            keep = rng.choice([keep, len(self.journal),
                               rng.randint(keep, len(self.journal))])
        for entry in self.journal[:keep]:
            self._replay(inodes, entry)
        for ino, node in inodes.items():
            live = self.inodes.get(ino)
            if node.kind == 'f' and live is not None:
                node.data = bytearray(self._torn(live, rng))
        new.inodes, new.root, new.next_ino = inodes, self.root, self.next_ino
        new.umask = self.umask
        new.seal()
        return new

    def after_crash(self):
        """Another FS, with everything the dead process did."""
        new = FS(self.euid, self.egid, self.cwd, self.fd_limit)
        new.inodes = {k: v.copy() for k, v in self.inodes.items()}
        new.root, new.next_ino, new.umask = self.root, self.next_ino, self.umask
        new.seal()
        return new

    @staticmethod
    def _torn(node, rng):
        data = bytearray(node.synced)
        if not node.wlog:
            return data
        mode = rng.choice(['none', 'all', 'prefix', 'blocks', 'size'])
        if mode == 'none':
            return data
        if mode == 'size':      # the length got there, the data did not
            for op in node.wlog:
                if op[0] == 't':
                    _resize(data, op[1])
                else:
                    _resize(data, max(len(data), op[1] + len(op[2])))
            return data
        ops = node.wlog
        if mode == 'prefix':
            ops = ops[:rng.randint(0, len(ops))]
        for op in ops:
            if op[0] == 't':
                if mode != 'blocks' or rng.random() < .5:
                    _resize(data, op[1])
                continue
            off, chunk = op[1], op[2]
            if mode != 'blocks':
                _store(data, off, chunk)
                continue
            size = rng.choice([7, 64, 512])
            for i in range(0, len(chunk), size):
                if rng.random() < .5:
                    _store(data, off + i, chunk[i:i + size])
        return data

    @staticmethod
    def _replay(inodes, entry):
        kind = entry[0]
        if kind == 'new':
            inodes[entry[1].ino] = entry[1].copy()
        elif kind == 'link':
            inodes[entry[1]].entries[entry[2]] = entry[3]
        elif kind == 'unlink':
            inodes[entry[1]].entries.pop(entry[2], None)
        elif kind == 'rename':
            ino = inodes[entry[1]].entries.pop(entry[2], None)
            if ino is not None:
                inodes[entry[3]].entries[entry[4]] = ino
        elif kind == 'mode':
            inodes[entry[1]].mode = entry[2]
        elif kind == 'owner':
            inodes[entry[1]].uid, inodes[entry[1]].gid = entry[2:4]
            inodes[entry[1]].mode = entry[4]
        else:
            raise HarnessError(kind)

    # -- the schedule ---------------------------------------------------

    def step(self, name, *paths, can=()):
        """
        One operation is about to be done. Returns the fault to be applied
        by the operation itself, if it is one of those in can.
        """
        if self.dead:
            raise Crash()
        self.opno += 1
        if self.opno > self.max_ops:
            raise Crash('step budget')
        fault = self.plan.get(self.opno)
        paths = tuple(self._show(i) for i in paths)
        self.log.append([self.opno, name, list(paths), ''])
        if fault is None:
            return None
        kind = fault[0]
        if kind == 'errno':
            self._fire('errno:' + errno.errorcode[fault[1]])
            if name in ('lstat', 'stat', 'readlink', 'access') and paths and (
                    isinstance(paths[0], str)):
                # What cannot be looked up now, will not be later.
                node = self.node(paths[0], name in ('stat', 'access'))
                if node is not None:
                    self.bad[node.ino] = fault[1]
            raise err(fault[1], *[i for i in paths if isinstance(i, str)][:1])
        if kind == 'crash':
            self._fire('crash')
            self.die()
            raise Crash()
        if kind == 'edit':
            # Somebody else does something to it, just before.
            self.edit(fault[1])
            return None
        if kind == 'vanish':
            # Somebody else removes it, just before.
            if self.remove(fault[1]):
                self._fire('vanish')
            return None
        if kind == 'sigint':
            self._fire('sigint')
            raise KeyboardInterrupt()
        if kind in ('crash_after', 'sigint_after'):
            return fault
        if kind in can:
            return fault
        return None

    def now(self):
        return EPOCH + self.opno * TICK

    def edit(self, events):
        """
        What another process does between two operations:
        [how, path, argument] each.
        """
        for how, path, arg in events:
            node = self.node(path)
            if how in ('inplace', 'chmod', 'chown') and node is None:
                continue
            if how == 'inplace':
                node.data[:] = arg
                node.synced, node.wlog = bytes(arg), []
                node.mtime = self.now()
            elif how == 'chmod':
                node.mode = arg
            elif how == 'chown':
                node.uid, node.gid = arg
            elif how == 'remove':
                self.remove(path)
            elif how == 'replace':
                data, mode, uid, gid = arg
                self.remove(path)
                self.put(path, data, mode, uid, gid).mtime = self.now()
            elif how == 'link':
                self.remove(path)
                self.put_link(path, arg)
            else:
                raise HarnessError(how)
            self._fire('edit:' + how)

    def _fire(self, what):
        self.fired.append(what)
        self.log[-1][3] = what

    def remove(self, path):
        dirname, _, name = path.rpartition('/')
        parent = self.node(dirname or '/')
        if parent is None or name not in parent.entries:
            return False
        node = self.inodes[parent.entries.pop(name)]
        node.nlink -= 1
        if node.kind == 'd':
            node.entries.clear()
        return True

    def die(self):
        self.dead = True
        self.fds = {}

    def done(self, fault=None):
        """The operation has been done."""
        if self.observer:
            self.observer(self)
        if fault and fault[0] == 'crash_after':
            self._fire('crash_after')
            self.die()
            raise Crash()
        if fault and fault[0] == 'sigint_after':
            self._fire('sigint_after')
            raise KeyboardInterrupt()

    def _show(self, path):
        if isinstance(path, int):
            of = self.fds.get(path)
            return of.path if of else path
        if path is None:
            return None
        if isinstance(path, bytes):
            return os.fsdecode(path)
        return str(path)

    def _may(self, node, bit):
        if self.euid == 0:
            return True
        if self.euid == node.uid:
            return bool(node.mode >> 6 & bit)
        if self.egid == node.gid:
            return bool(node.mode >> 3 & bit)
        return bool(node.mode & bit)

    # -- file descriptors ---------------------------------------------------

    def _of(self, fd):
        if self.dead:
            raise Crash()
        try:
            return self.fds[fd]
        except KeyError:
            raise err(errno.EBADF)

    def open(self, path, flags, mode=0o777):
        # (Opening for reading is an operation like all others.)
        write = bool(flags & (os.O_WRONLY | os.O_RDWR))
        fault = self.step('open' if not write else 'openw', path)
        full = self._abs(path)
        parent, name, node = self._walk(
            path, follow=not (flags & os.O_NOFOLLOW))
        if len(self.fds) >= self.fd_limit:
            raise err(errno.EMFILE, path)
        if node is not None:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise err(errno.EEXIST, path)
            if node.kind == 'l':
                raise err(errno.ELOOP, path)
            if node.kind == 'd' and write:
                raise err(errno.EISDIR, path)
            if node.kind != 'd' and flags & os.O_DIRECTORY:
                raise err(errno.ENOTDIR, path)
            if not write and not self._may(node, 4):
                raise err(errno.EACCES, path)
            if write and not self._may(node, 2):
                raise err(errno.EACCES, path)
            if flags & os.O_TRUNC and write and node.data:
                node.wlog.append(('t', 0))
                del node.data[:]
                node.mtime = self.now()
        else:
            if not flags & os.O_CREAT:
                raise err(errno.ENOENT, path)
            if not self._may(parent, 2):
                raise err(errno.EACCES, path)
            node = self._new('f', mode & ~self.umask & 0o7777,
                             self.euid, self.egid, parent)
            node.nlink = 1
            node.mtime = self.now()
            self.journal.append(('new', node.copy()))
            self.journal.append(('link', parent.ino, name, node.ino))
            parent.entries[name] = node.ino
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = OpenFile(node, flags, os.path.normpath(full))
        self.max_open = max(self.max_open, len(self.fds))
        self.opened.append((os.path.normpath(full), write))
        self.done(fault)
        return fd

    def close(self, fd):
        if self.dead:
            raise Crash()
        if fd not in self.fds:
            raise err(errno.EBADF)
        # Like on Linux, the descriptor is gone even if close fails.
        path = self.fds[fd].path
        try:
            fault = self.step('close', path)
        finally:
            self.fds.pop(fd, None)
        self.done(fault)

    def read(self, fd, size):
        of = self._of(fd)
        fault = self.step('read', fd, can=('short',))
        if of.inode.kind == 'd':
            raise err(errno.EISDIR)
        if of.flags & os.O_WRONLY:
            raise err(errno.EBADF)
        if fault and fault[0] == 'short' and size > 1:
            self._fire('short_read')
            size = min(size, max(1, fault[1]))
        data = bytes(of.inode.data[of.pos:of.pos + size])
        of.pos += len(data)
        self.done(fault)
        self.readpos[of.inode.ino] = max(
            of.pos, self.readpos.get(of.inode.ino, 0))
        if not data and size:
            self.read_to_end.add(of.inode.ino)
        return data

    def write(self, fd, data):
        of = self._of(fd)
        data = bytes(data)
        fault = self.step('write', fd, can=('short', 'partial'))
        if not of.flags & (os.O_WRONLY | os.O_RDWR):
            raise err(errno.EBADF)
        if fault and fault[0] in ('short', 'partial') and len(data) > 1:
            self._fire('short_write' if fault[0] == 'short'
                       else 'partial_write')
            data = data[:max(1, fault[1] * len(data) // 100)]
        pos = len(of.inode.data) if of.flags & os.O_APPEND else of.pos
        _store(of.inode.data, pos, data)
        of.inode.wlog.append(('w', pos, data))
        of.inode.mtime = self.now()
        of.pos = pos + len(data)
        self.done(fault)
        if fault and fault[0] == 'partial':
            # The rest of it fails: the disk is full from here on.
            raise err(fault[2])
        return len(data)

    def lseek(self, fd, pos, whence):
        of = self._of(fd)
        base = {0: 0, 1: of.pos, 2: len(of.inode.data or b'')}[whence]
        if base + pos < 0:
            raise err(errno.EINVAL)
        of.pos = base + pos
        return of.pos

    def ftruncate(self, fd, size):
        of = self._of(fd)
        fault = self.step('ftruncate', fd)
        of.inode.wlog.append(('t', size))
        of.inode.mtime = self.now()
        _resize(of.inode.data, size)
        self.done(fault)

    def truncate(self, path, size):
        if isinstance(path, int):
            return self.ftruncate(path, size)
        fault = self.step('truncate', path)
        node = self._walk(path)[2]
        if node is None:
            raise err(errno.ENOENT, path)
        node.wlog.append(('t', size))
        node.mtime = self.now()
        _resize(node.data, size)
        self.done(fault)

    def fsync(self, fd):
        of = self._of(fd)
        fault = self.step('fsync', fd)
        if of.inode.kind == 'f':
            of.inode.synced, of.inode.wlog = bytes(of.inode.data), []
        self.barrier = len(self.journal)
        self.done(fault)

    def sync(self):
        fault = self.step('sync')
        for node in self.inodes.values():
            if node.kind == 'f':
                node.synced, node.wlog = bytes(node.data), []
        self.barrier = len(self.journal)
        self.done(fault)

    # -- names ----------------------------------------------------------

    def _result(self, node):
        fmt = {'f': stat_.S_IFREG, 'd': stat_.S_IFDIR, 'l': stat_.S_IFLNK}
        size = (len(node.data) if node.kind == 'f' else
                len(node.target) if node.kind == 'l' else 4096)
        return os.stat_result((
            fmt[node.kind] | node.mode, node.ino, node.dev, node.nlink,
            node.uid, node.gid, size) + (node.mtime // 10 ** 9,) * 3 +
            (node.mtime / 1e9,) * 3 + (node.mtime,) * 3)

    def stat(self, path, follow=True):
        fault = self.step('stat' if follow else 'lstat', path)
        if isinstance(path, int):
            node = self._of(path).inode
        else:
            node = self._walk(path, follow)[2]
            if node is None:
                raise err(errno.ENOENT, path)
        self.done(fault)
        return self._result(node)

    def access(self, path, mode):
        fault = self.step('access', path)
        try:
            node = self._walk(path)[2]
        except OSError:
            node = None
        self.done(fault)
        if node is None:
            return False
        return all(self._may(node, bit) for bit in (1, 2, 4) if mode & bit)

    def readlink(self, path):
        fault = self.step('readlink', path)
        node = self._walk(path, follow=False)[2]
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != 'l':
            raise err(errno.EINVAL, path)
        self.done(fault)
        return node.target

    def symlink(self, target, path):
        fault = self.step('symlink', target, path)
        parent, name, node = self._walk(path, follow=False)
        if node is not None:
            raise err(errno.EEXIST, path)
        if not self._may(parent, 2):
            raise err(errno.EACCES, path)
        new = self._new('l', 0o777, self.euid, self.egid, parent)
        new.target = os.fspath(target)
        new.nlink = 1
        self.journal.append(('new', new.copy()))
        self.journal.append(('link', parent.ino, name, new.ino))
        parent.entries[name] = new.ino
        self.done(fault)

    def link(self, src, dst):
        fault = self.step('link', src, dst)
        snode = self._walk(src, follow=False)[2]
        parent, name, node = self._walk(dst, follow=False)
        if snode is None:
            raise err(errno.ENOENT, src)
        if node is not None:
            raise err(errno.EEXIST, dst)
        if not self._may(parent, 2):
            raise err(errno.EACCES, dst)
        if snode.dev != parent.dev:
            raise err(errno.EXDEV, dst)
        parent.entries[name] = snode.ino
        snode.nlink += 1
        self.journal.append(('link', parent.ino, name, snode.ino))
        self.done(fault)

    def rename(self, src, dst):
        fault = self.step('rename', src, dst)
        sparent, sname, snode = self._walk(src, follow=False)
        dparent, dname, dnode = self._walk(dst, follow=False)
        if snode is None:
            raise err(errno.ENOENT, src)
        if not self._may(sparent, 2) or not self._may(dparent, 2):
            raise err(errno.EACCES, src)
        if dnode is not None and dnode.kind == 'd' and snode.kind != 'd':
            raise err(errno.EISDIR, dst)
        if sparent.dev != dparent.dev:
            raise err(errno.EXDEV, dst)
        if snode.mount or dnode is not None and dnode.mount:
            raise err(errno.EBUSY, dst)
        if dnode is not snode:
            del sparent.entries[sname]
            dparent.entries[dname] = snode.ino
            self.journal.append(
                ('rename', sparent.ino, sname, dparent.ino, dname))
            if dnode is not None:
                dnode.nlink -= 1
        self.done(fault)

    def unlink(self, path):
        fault = self.step('unlink', path)
        parent, name, node = self._walk(path, follow=False)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind == 'd':
            raise err(errno.EISDIR, path)
        if not self._may(parent, 2):
            raise err(errno.EACCES, path)
        if node.mount:
            raise err(errno.EBUSY, path)
        del parent.entries[name]
        node.nlink -= 1
        self.journal.append(('unlink', parent.ino, name))
        self.done(fault)

    def mkdir(self, path, mode=0o777):
        fault = self.step('mkdir', path)
        parent, name, node = self._walk(path, follow=False)
        if node is not None:
            raise err(errno.EEXIST, path)
        if not self._may(parent, 2):
            raise err(errno.EACCES, path)
        new = self._new('d', mode & ~self.umask, self.euid, self.egid,
                        parent)
        new.nlink = 1
        self.journal.append(('new', new.copy()))
        self.journal.append(('link', parent.ino, name, new.ino))
        parent.entries[name] = new.ino
        self.done(fault)

    def rmdir(self, path):
        fault = self.step('rmdir', path)
        parent, name, node = self._walk(path, follow=False)
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != 'd':
            raise err(errno.ENOTDIR, path)
        if node.entries:
            raise err(errno.ENOTEMPTY, path)
        del parent.entries[name]
        self.journal.append(('unlink', parent.ino, name))
        self.done(fault)

    def listdir(self, path):
        fault = self.step('listdir', path)
        node = (self._of(path).inode if isinstance(path, int)
                else self._walk(path)[2])
        if node is None:
            raise err(errno.ENOENT, path)
        if node.kind != 'd':
            raise err(errno.ENOTDIR, path)
        if not self._may(node, 4):
            raise err(errno.EACCES, path)
        names = sorted(node.entries)
        if self.dir_order:
            names = self.dir_order(names)
        self.done(fault)
        return names

    def chmod(self, path, mode, follow=True):
        fault = self.step('chmod', path)
        node = (self._of(path).inode if isinstance(path, int)
                else self._walk(path, follow)[2])
        if node is None:
            raise err(errno.ENOENT, path)
        if self.euid not in (0, node.uid):
            raise err(errno.EPERM, path)
        node.mode = mode & 0o7777
        self.journal.append(('mode', node.ino, node.mode))
        self.done(fault)

    def chown(self, path, uid, gid, follow=True):
        fault = self.step('chown', path)
        node = (self._of(path).inode if isinstance(path, int)
                else self._walk(path, follow)[2])
        if node is None:
            raise err(errno.ENOENT, path)
        if self.euid != 0 and not (
                uid in (-1, node.uid) and gid in (-1, node.gid, self.egid)):
            raise err(errno.EPERM, path)
        if uid != -1:
            node.uid = uid
        if gid != -1:
            node.gid = gid
        if node.kind == 'f':
            node.mode &= ~0o6000        # as Linux does
        self.journal.append(('owner', node.ino, node.uid, node.gid, node.mode))
        self.done(fault)


def _resize(data, size):
    if len(data) > size:
        del data[size:]
    else:
        data.extend(bytes(size - len(data)))


def _store(data, pos, chunk):
    if len(data) < pos:
        data.extend(bytes(pos - len(data)))
    data[pos:pos + len(chunk)] = chunk


# -- the seams ----------------------------------------------------------

class VRaw(io.RawIOBase):
    """What FileIO is to a real descriptor."""
    def __init__(self, fs, fd, name, flags, mode):
        self._fs, self._fd, self.name, self._flags = fs, fd, name, flags
        self.mode = mode

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def readable(self):
        return not self._flags & os.O_WRONLY

    def writable(self):
        return bool(self._flags & (os.O_WRONLY | os.O_RDWR))

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, buf):
        data = self._fs.read(self.fileno(), len(buf))
        buf[:len(data)] = data
        return len(data)

    def write(self, data):
        return self._fs.write(self.fileno(), data)

    def seek(self, pos, whence=0):
        return self._fs.lseek(self.fileno(), pos, whence)

    def tell(self):
        return self._fs.lseek(self.fileno(), 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._fs.ftruncate(self.fileno(), size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fs = self._fs
                if not fs.dead and self._fd in fs.fds:
                    fs.close(self._fd)
                elif fs.dead:
                    pass


current = None          # the FS, while simulating
REAL_PREFIXES = []
real = {}


def is_real(path):
    if path in REAL_PREFIXES:
        return True
    for prefix in REAL_PREFIXES:
        if path.startswith(prefix + '/'):
            return True
    return False


def _virtual(path):
    """Is this one for the simulation?"""
    if current is None:
        return False
    if isinstance(path, bool):
        return False
    if isinstance(path, int):
        return path >= FD_BASE
    try:
        path = os.fspath(path)
    except TypeError:
        return False
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path.startswith('/'):
        return True
    return not is_real(path)


def _vopen(file, mode='r', buffering=-1, encoding=None, errors=None,
           newline=None, closefd=True, opener=None):
    if not _virtual(file):
        return real['io.open'](file, mode, buffering, encoding, errors,
                               newline, closefd, opener)
    fs = current
    text = 'b' not in mode
    base = mode.replace('b', '').replace('t', '')
    plus = '+' in base
    base = base.replace('+', '')
    if base not in ('r', 'w', 'a', 'x') or ('b' in mode and 't' in mode):
        raise ValueError('invalid mode: {!r}'.format(mode))
    if not text and (encoding or errors or newline is not None):
        raise ValueError('binary mode takes no encoding/errors/newline')
    flags = os.O_RDWR if plus else (
        os.O_RDONLY if base == 'r' else os.O_WRONLY)
    flags |= {'r': 0, 'w': os.O_CREAT | os.O_TRUNC,
              'a': os.O_CREAT | os.O_APPEND,
              'x': os.O_CREAT | os.O_EXCL}[base]
    flags |= os.O_CLOEXEC
    if isinstance(file, int):
        fd, name = file, file
        fs._of(fd)
    elif opener:
        fd, name = opener(file, flags), file
    else:
        fd, name = fs.open(file, flags, 0o666), file
        if fs.fds[fd].inode.kind == 'd':
            fs.fds.pop(fd)
            raise err(errno.EISDIR, file)
    rawmode = {'r': 'rb', 'w': 'wb', 'a': 'ab', 'x': 'xb'}[base]
    raw = VRaw(fs, fd, name, flags, rawmode + ('+' if plus else ''))
    if base == 'a':
        raw.seek(0, 2)
    if buffering == 0:
        if text:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else fs_bufsize[0]
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif base == 'r':
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if not text:
        return buf
    ret = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                           buffering == 1)
    ret.mode = mode
    return ret


fs_bufsize = [8192]     # a tuning knob


class _DirEntry:
    def __init__(self, fs, dirname, name):
        self.name = name
        if isinstance(dirname, int):    # a file descriptor
            self.path = name
            self._path = os.path.join(fs._of(dirname).path, name)
        else:
            self.path = self._path = os.path.join(dirname, name)
        self._fs = fs

    def __fspath__(self):
        return self.path

    def _is(self, kind, follow):
        node = self._fs.node(self._path, follow)
        return node is not None and node.kind == kind

    def is_dir(self, *, follow_symlinks=True):
        return self._is('d', follow_symlinks)

    def is_file(self, *, follow_symlinks=True):
        return self._is('f', follow_symlinks)

    def is_symlink(self):
        return self._is('l', False)

    def stat(self, *, follow_symlinks=True):
        return self._fs.stat(self._path, follow_symlinks)

    def inode(self):
        return self._fs.node(self._path, False).ino


class _Scandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def close(self):
        pass


real_listdir_hook = [None]      # a permutation for real directories


def _dirfd(path, dir_fd):
    if dir_fd is None:
        return path
    path = os.fspath(path)
    if path.startswith('/'):
        return path
    if dir_fd >= FD_BASE and current is not None:
        return current._of(dir_fd).path + '/' + path
    raise HarnessError('dir_fd')


def install():
    """Put the seams in place. Once, before importing the code under test."""
    if real:
        return
    for name in (
            'open close read write pread pwrite lseek fstat ftruncate '
            'truncate fsync fdatasync sync stat lstat access readlink symlink '
            'link rename replace unlink remove mkdir rmdir listdir scandir '
            'chmod fchmod chown lchown fchown utime getcwd chdir umask '
            'isatty geteuid getuid getegid getgid sendfile copy_file_range '
            'listxattr getxattr setxattr posix_fadvise dup '
            'fchdir statvfs').split():
        if hasattr(os, name):
            real['os.' + name] = getattr(os, name)
    real['io.open'] = io.open

    def patch(name):
        def decorate(func):
            if 'os.' + name in real:
                func.__name__ = name
                setattr(os, name, func)
            return func
        return decorate

    @patch('open')
    def _(path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is None and not _virtual(path):
            return real['os.open'](path, flags, mode)
        return current.open(_dirfd(path, dir_fd), flags, mode)

    @patch('close')
    def _(fd):
        return current.close(fd) if _virtual(fd) else real['os.close'](fd)

    @patch('read')
    def _(fd, n):
        return current.read(fd, n) if _virtual(fd) else real['os.read'](fd, n)

    @patch('write')
    def _(fd, data):
        return (current.write(fd, data) if _virtual(fd)
                else real['os.write'](fd, data))

    @patch('pread')
    def _(fd, n, offset):
        if not _virtual(fd):
            return real['os.pread'](fd, n, offset)
        of = current._of(fd)
        old, of.pos = of.pos, offset
        try:
            return current.read(fd, n)
        finally:
            of.pos = old

    @patch('pwrite')
    def _(fd, data, offset):
        if not _virtual(fd):
            return real['os.pwrite'](fd, data, offset)
        of = current._of(fd)
        old, of.pos = of.pos, offset
        try:
            return current.write(fd, data)
        finally:
            of.pos = old

    @patch('lseek')
    def _(fd, pos, how):
        return (current.lseek(fd, pos, how) if _virtual(fd)
                else real['os.lseek'](fd, pos, how))

    @patch('fstat')
    def _(fd):
        return current.stat(fd) if _virtual(fd) else real['os.fstat'](fd)

    @patch('ftruncate')
    def _(fd, n):
        return (current.ftruncate(fd, n) if _virtual(fd)
                else real['os.ftruncate'](fd, n))

    @patch('truncate')
    def _(path, length):
        return (current.truncate(path, length) if _virtual(path)
                else real['os.truncate'](path, length))

    for name in ('fsync', 'fdatasync'):
        def _(fd, name=name):
            if hasattr(fd, 'fileno'):
                fd = fd.fileno()
            return (current.fsync(fd) if _virtual(fd)
                    else real['os.' + name](fd))
        patch(name)(_)

    @patch('sync')
    def _():
        return current.sync() if current is not None else None

    @patch('stat')
    def _(path, *, dir_fd=None, follow_symlinks=True):
        if dir_fd is None and not _virtual(path):
            return real['os.stat'](path, follow_symlinks=follow_symlinks)
        return current.stat(_dirfd(path, dir_fd), follow_symlinks)

    @patch('lstat')
    def _(path, *, dir_fd=None):
        if dir_fd is None and not _virtual(path):
            return real['os.lstat'](path)
        return current.stat(_dirfd(path, dir_fd), False)

    @patch('access')
    def _(path, mode, **kwargs):
        return (current.access(path, mode) if _virtual(path)
                else real['os.access'](path, mode, **kwargs))

    @patch('readlink')
    def _(path, *, dir_fd=None):
        if dir_fd is None and not _virtual(path):
            return real['os.readlink'](path)
        return current.readlink(_dirfd(path, dir_fd))

    def outside(*paths):
        if current is not None:
            raise HarnessError('write outside of the simulation: {!r}'.format(
                paths))

    @patch('symlink')
    def _(src, dst, target_is_directory=False, *, dir_fd=None):
        if _virtual(dst):
            return current.symlink(src, dst)
        outside(src, dst)
        return real['os.symlink'](src, dst)

    @patch('link')
    def _(src, dst, **kwargs):
        if _virtual(dst):
            return current.link(src, dst)
        outside(src, dst)
        return real['os.link'](src, dst, **kwargs)

    for name in ('rename', 'replace'):
        def _(src, dst, *, src_dir_fd=None, dst_dir_fd=None, name=name):
            if _virtual(src) or _virtual(dst):
                return current.rename(
                    _dirfd(src, src_dir_fd), _dirfd(dst, dst_dir_fd))
            outside(src, dst)
            return real['os.' + name](src, dst)
        patch(name)(_)

    for name in ('unlink', 'remove'):
        def _(path, *, dir_fd=None, name=name):
            if dir_fd is None and not _virtual(path):
                outside(path)
                return real['os.' + name](path)
            return current.unlink(_dirfd(path, dir_fd))
        patch(name)(_)

    @patch('mkdir')
    def _(path, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or _virtual(path):
            return current.mkdir(_dirfd(path, dir_fd), mode)
        outside(path)
        return real['os.mkdir'](path, mode)

    @patch('rmdir')
    def _(path, *, dir_fd=None):
        if dir_fd is not None or _virtual(path):
            return current.rmdir(_dirfd(path, dir_fd))
        outside(path)
        return real['os.rmdir'](path)

    @patch('listdir')
    def _(path='.'):
        if _virtual(path):
            return current.listdir(path)
        names = real['os.listdir'](path)
        if current is not None and real_listdir_hook[0]:
            names = real_listdir_hook[0](path, sorted(names))
        return names

    @patch('scandir')
    def _(path='.'):
        if _virtual(path):
            fs = current
            base = path if isinstance(path, int) else os.fspath(path)
            return _Scandir([_DirEntry(fs, base, i)
                             for i in fs.listdir(path)])
        if current is not None and real_listdir_hook[0]:
            with real['os.scandir'](path) as it:
                entries = {i.name: i for i in it}
            names = real_listdir_hook[0](path, sorted(entries))
            return _Scandir([entries[i] for i in names])
        return real['os.scandir'](path)

    @patch('chmod')
    def _(path, mode, *, dir_fd=None, follow_symlinks=True):
        if dir_fd is not None or _virtual(path):
            return current.chmod(_dirfd(path, dir_fd), mode, follow_symlinks)
        outside(path)
        return real['os.chmod'](path, mode)

    @patch('fchmod')
    def _(fd, mode):
        return (current.chmod(fd, mode) if _virtual(fd)
                else real['os.fchmod'](fd, mode))

    @patch('chown')
    def _(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
        if dir_fd is not None or _virtual(path):
            return current.chown(
                _dirfd(path, dir_fd), uid, gid, follow_symlinks)
        outside(path)
        return real['os.chown'](path, uid, gid)

    @patch('lchown')
    def _(path, uid, gid):
        if _virtual(path):
            return current.chown(path, uid, gid, False)
        outside(path)
        return real['os.lchown'](path, uid, gid)

    @patch('fchown')
    def _(fd, uid, gid):
        return (current.chown(fd, uid, gid) if _virtual(fd)
                else real['os.fchown'](fd, uid, gid))

    @patch('utime')
    def _(path, *args, **kwargs):
        if _virtual(path):
            current.stat(path)      # (there are no times)
            return None
        outside(path)
        return real['os.utime'](path, *args, **kwargs)

    @patch('getcwd')
    def _():
        return current.cwd if current is not None else real['os.getcwd']()

    @patch('chdir')
    def _(path):
        if current is None:
            return real['os.chdir'](path)
        current.cwd = os.path.normpath(current._abs(path))

    @patch('umask')
    def _(mask):
        if current is None:
            return real['os.umask'](mask)
        old, current.umask = current.umask, mask
        return old

    @patch('isatty')
    def _(fd):
        return False if _virtual(fd) else real['os.isatty'](fd)

    for name, attr in (('geteuid', 'euid'), ('getuid', 'euid'),
                       ('getegid', 'egid'), ('getgid', 'egid')):
        def _(name=name, attr=attr):
            return (getattr(current, attr) if current is not None
                    else real['os.' + name]())
        patch(name)(_)

    for name in ('sendfile', 'copy_file_range'):
        def _(a, b, *args, name=name, **kwargs):
            if _virtual(a) or _virtual(b):
                raise err(errno.ENOTSUP)
            return real['os.' + name](a, b, *args, **kwargs)
        patch(name)(_)

    @patch('listxattr')
    def _(path=None, **kwargs):
        return ([] if path is None or _virtual(path)
                else real['os.listxattr'](path, **kwargs))

    @patch('posix_fadvise')
    def _(fd, *args):
        return None if _virtual(fd) else real['os.posix_fadvise'](fd, *args)

    import shutil
    shutil._USE_CP_SENDFILE = False
    try:
        import fcntl
    except ImportError:
        pass
    else:
        for name in ('flock', 'lockf', 'fcntl'):
            def _(fd, *args, name=name):
                if hasattr(fd, 'fileno'):
                    fd = fd.fileno()
                return 0 if _virtual(fd) else real['fcntl.' + name](fd, *args)
            real['fcntl.' + name] = getattr(fcntl, name)
            setattr(fcntl, name, _)

    io.open = _vopen
    builtins.open = _vopen
    _replace_captured()
    os.__dict__['open'].__doc__ = 'simulated'
    tempfile._name_sequence = _Names()


def _replace_captured():
    """
    Modules that were imported before may have the real functions as globals
    (from os import unlink) or as defaults (def f(unlink=os.unlink)).
    """
    new = {}
    for name, func in real.items():
        module, name = name.split('.')
        new[id(func)] = getattr(sys.modules[module], name)

    def function(func):
        if not isinstance(func, types.FunctionType):
            return
        if getattr(func, '__defaults__', None):
            func.__defaults__ = tuple(
                new.get(id(i), i) for i in func.__defaults__)
        if getattr(func, '__kwdefaults__', None):
            for key, value in func.__kwdefaults__.items():
                func.__kwdefaults__[key] = new.get(id(value), value)

    keep = ('sim', 'importlib', '_frozen', 'posix', '_io', '__main__')
    for name, module in list(sys.modules.items()):
        if name.split('.')[0].startswith(keep) and name != 'posixpath':
            continue
        for key, value in list(getattr(module, '__dict__', {}).items()):
            if id(value) in new:
                setattr(module, key, new[id(value)])
            elif isinstance(value, type):
                for attr, item in list(vars(value).items()):
                    function(getattr(item, '__func__', item))
                    if id(item) in new:
                        try:
                            setattr(value, attr, staticmethod(new[id(item)]))
                        except TypeError:
                            pass
            else:
                function(value)
    for name in ('supports_dir_fd', 'supports_fd', 'supports_follow_symlinks',
                 'supports_effective_ids'):
        names = getattr(os, name)
        for func in list(names):
            if id(func) in new:
                names.add(new[id(func)])


class _Names:
    """Deterministic names for temporary files."""
    count = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.count += 1
        return 'sim{:05d}'.format(self.count)


def enter(fs):
    global current
    current = fs
    tempfile._name_sequence = _Names()
    tempfile.tempdir = None


def leave():
    global current
    current = None


def setup_prefixes(*more):
    seen = []
    for path in (sys.prefix, sys.base_prefix, '/usr', '/opt/vp', '/dev/null',
                 '/dev/urandom') + more:
        path = os.path.realpath(path)
        if path != '/' and path not in seen:
            seen.append(path)
    REAL_PREFIXES[:] = seen
