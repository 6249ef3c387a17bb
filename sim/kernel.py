"""The simulator kernel: storage, clock, names, processes, scheduler, faults.

Every storage operation that simulated code performs goes through Kernel.op().
Paths under /sim live in memory; everything else is the real file system,
visible read-only.  Nothing in here draws from a random source: all choices
come from the plan (explicit numbers, seeds) or from hashes of the plan's seed.
"""
import builtins
import datetime as _dtmod
import errno
import gc
import hashlib
import io
import locale
import os
import random
import shutil
import sys
import tempfile
import threading
import time

FD_BASE = 1 << 20
ROOT = '/sim'
JOURNAL_TIME = 5.0  # seconds until the device has written a changed directory anyway
WRITEBACK_TIME = 30.0  # seconds until the device has written changed content anyway

# ---------------------------------------------------------------- originals
_real = {}
for _n in ('open', 'close', 'read', 'write', 'lseek', 'fsync', 'fdatasync', 'ftruncate', 'truncate',
           'stat', 'lstat', 'fstat', 'access', 'rename', 'replace', 'remove', 'unlink', 'mkdir', 'rmdir',
           'listdir', 'scandir', 'chdir', 'getcwd', 'getcwdb', 'utime', 'chmod', 'chown', 'lchown', 'link',
           'symlink', 'readlink', 'statvfs', 'listxattr', 'getxattr', 'setxattr', 'removexattr', 'mkfifo', 'mknod',
           'isatty', 'getpid', 'system', 'urandom', 'fchdir', 'chroot', 'sendfile', 'dup', 'pread', 'pwrite',
           'posix_fallocate', 'umask', 'kill', 'fork', 'popen', 'copy_file_range', 'sync', 'fchmod', 'renames',
           'execv', 'execve', 'execvp', 'posix_spawn', 'posix_spawnp', 'killpg', 'abort', '_exit'):
    if hasattr(os, _n):
        _real[_n] = getattr(os, _n)
_real_open = io.open
_real_time = time.time
_real_localtime = time.localtime
_real_gmtime = time.gmtime
_real_strftime = time.strftime
_real_sleep = time.sleep
_real_monotonic = time.monotonic
_real_perf = time.perf_counter
_real_datetime = _dtmod.datetime
_real_date = _dtmod.date
_real_getlocale = locale.getlocale
_real_getdefaultlocale = locale.getdefaultlocale
_real_setlocale = locale.setlocale
_real_input = builtins.input
_real_print_stdout = sys.stdout


class SimCrash(BaseException):
    """The simulated process is dead; nothing it does has an effect any more."""


class SimStuck(BaseException):
    """Step budget of a run exceeded (bounded liveness)."""


def h64(*parts):
    d = hashlib.blake2b('\x00'.join(str(p) for p in parts).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big')


# ---------------------------------------------------------------- file system
class FileNode:
    __slots__ = ('data', 'mtime', 'mode', 'ino', 'dirty', 'durable')

    def __init__(self, data=b'', mtime=0.0, mode=0o100644, ino=0):
        self.data = bytearray(data)
        self.dirty = None  # time of the first change that has not been flushed to the device
        self.durable = None  # content on the device, while dirty
        self.mtime = mtime
        self.mode = mode
        self.ino = ino


class DirNode:
    __slots__ = ('kids', 'mtime', 'mode', 'ino')

    def __init__(self, mtime=0.0, mode=0o40755, ino=0):
        self.kids = {}
        self.mtime = mtime
        self.mode = mode
        self.ino = ino


def oserr(code, path=None, path2=None):
    if path is None:
        return OSError(code, os.strerror(code))
    if path2 is None:
        return OSError(code, os.strerror(code), path)
    return OSError(code, os.strerror(code), path, None, path2)


class FS:
    """In-memory tree mounted at /sim."""

    def __init__(self):
        self.ino = 10
        self.root = DirNode(ino=2)
        self.used = 0

    def next_ino(self):
        self.ino += 1
        return self.ino

    @staticmethod
    def parts(path):
        # path: absolute, below ROOT
        out = []
        for p in path[len(ROOT):].split('/'):
            if p in ('', '.'):
                continue
            if p == '..':
                if out:
                    out.pop()
                continue
            out.append(p)
        return out

    def walk_to(self, path, parts=None):
        node = self.root
        for p in (self.parts(path) if parts is None else parts):
            if isinstance(node, FileNode):
                raise oserr(errno.ENOTDIR, path)
            try:
                node = node.kids[p]
            except KeyError:
                raise oserr(errno.ENOENT, path) from None
        return node

    def lookup(self, path):
        try:
            return self.walk_to(path)
        except OSError:
            return None

    def parent(self, path):
        parts = self.parts(path)
        if not parts:
            raise oserr(errno.EBUSY, path)
        node = self.walk_to(path, parts[:-1])
        if isinstance(node, FileNode):
            raise oserr(errno.ENOTDIR, path)
        return node, parts[-1]

    # -- harness-side helpers (no faults, no tracing)
    def put(self, path, data, mtime=0.0):
        self.mkdirs(path.rsplit('/', 1)[0], mtime)
        d, name = self.parent(path)
        if isinstance(data, str):
            data = data.encode('utf-8')
        d.kids[name] = FileNode(data, mtime, ino=self.next_ino())

    def get(self, path):
        n = self.lookup(path)
        return bytes(n.data) if isinstance(n, FileNode) else None

    def exists(self, path):
        return self.lookup(path) is not None

    def isfile(self, path):
        return isinstance(self.lookup(path), FileNode)

    def mkdirs(self, path, mtime=0.0):
        node = self.root
        for p in self.parts(path):
            nxt = node.kids.get(p)
            if nxt is None:
                nxt = node.kids[p] = DirNode(mtime, ino=self.next_ino())
            node = nxt

    def delete(self, path):
        d, name = self.parent(path)
        d.kids.pop(name, None)

    def move(self, a, b):
        d, n = self.parent(a)
        node = d.kids.pop(n)
        d2, n2 = self.parent(b)
        d2.kids[n2] = node

    def snapshot(self, top=ROOT):
        """dict path -> bytes (files) or None (directories), below top."""
        out = {}

        def rec(node, path):
            for name in sorted(node.kids):
                kid = node.kids[name]
                p = f'{path}/{name}'
                if isinstance(kid, DirNode):
                    out[p] = None
                    rec(kid, p)
                else:
                    out[p] = bytes(kid.data)

        n = self.lookup(top)
        if isinstance(n, DirNode):
            rec(n, top.rstrip('/'))
        return out

    @classmethod
    def from_snapshot(cls, snap, mtime=0.0):
        fs = cls()
        for p, data in snap.items():
            if data is None:
                fs.mkdirs(p, mtime)
            else:
                fs.put(p, data, mtime)
        return fs


class OpenFile:
    """An open file description (shared state behind a descriptor)."""
    __slots__ = ('node', 'path', 'pos', 'flags', 'proc', 'fd', 'dirfd')

    def __init__(self, node, path, flags, proc, fd):
        self.node, self.path, self.flags, self.proc, self.fd = node, path, flags, proc, fd
        self.pos = 0


class SimRaw(io.RawIOBase):
    """Raw file object on a simulated descriptor."""

    def __init__(self, kern, fd, mode, name, closefd=True):
        self._k = kern
        self._fd = fd
        self.name = name
        self._mode = mode
        self._closefd = closefd
        self._p = kern.fds[fd].proc
        acc = kern.fds[fd].flags & 3
        self._r = acc in (os.O_RDONLY, os.O_RDWR)
        self._w = acc in (os.O_WRONLY, os.O_RDWR)

    @property
    def mode(self):
        return self._mode

    @property
    def closefd(self):
        return self._closefd

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def fileno(self):
        self._chk()
        return self._fd

    def isatty(self):
        return False

    def readable(self):
        self._chk()
        return self._r

    def writable(self):
        self._chk()
        return self._w

    def seekable(self):
        self._chk()
        return True

    def readinto(self, b):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        data = self._k.sys_read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def readall(self):
        self._chk()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        out = []
        while True:
            d = self._k.sys_read(self._fd, 1 << 20)
            if not d:
                return b''.join(out)
            out.append(d)

    def write(self, b):
        self._chk()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        return self._k.sys_write(self._fd, bytes(b))

    def seek(self, pos, whence=0):
        self._chk()
        return self._k.sys_lseek(self._fd, pos, whence)

    def tell(self):
        self._chk()
        return self._k.sys_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        self._chk()
        if size is None:
            size = self.tell()
        self._k.sys_ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            if self._closefd:
                self._k.sys_close(self._fd)
        finally:
            super().close()


class Proc:
    """One start of a simulated program."""

    def __init__(self, kern, pid, cwd='/sim/home', env=None):
        self.kern = kern
        self.pid = pid
        self.cwd = cwd
        self.env = dict(locale=('en_US', 'UTF-8'), encoding='utf-8', bufsize=8192)
        self.env.update(env or {})
        self.dead = False
        self.exited = False
        self.nops = 0
        self.faults = {}  # op index -> fault dict
        self.events = {}  # op index -> list of callables
        self.tmpcount = 0
        self.modules = {}
        self.stdout = []
        self.stderr = []
        self.inputs = None  # callable(prompt) -> str
        self.umask = 0o022
        self.booting = False
        self.execs = []
        # scheduling
        self.thread = None
        self.sem = None
        self.result = None
        self.done = False


class SimStat:
    pass


class Entry:
    """os.DirEntry replacement."""
    __slots__ = ('name', 'path', '_n')

    def __init__(self, name, path, node):
        self.name, self.path, self._n = name, path, node

    def is_dir(self, *, follow_symlinks=True):
        return isinstance(self._n, DirNode)

    def is_file(self, *, follow_symlinks=True):
        return isinstance(self._n, FileNode)

    def is_symlink(self):
        return False

    def is_junction(self):
        return False

    def inode(self):
        return self._n.ino

    def stat(self, *, follow_symlinks=True):
        return K._statres(self._n)

    def __fspath__(self):
        return self.path


class ScanIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


ERR_BY_KIND = dict(eio=errno.EIO, enospc=errno.ENOSPC, eacces=errno.EACCES, eperm=errno.EPERM, emfile=errno.EMFILE,
                   ebusy=errno.EBUSY, erofs=errno.EROFS, edquot=errno.EDQUOT, enametoolong=errno.ENAMETOOLONG,
                   etimedout=errno.ETIMEDOUT, enoent=errno.ENOENT)

# operations at which an error return is meaningful
FAULTABLE = {'open_r', 'open_w', 'read', 'write', 'close_w', 'rename', 'unlink', 'mkdir', 'rmdir', 'scandir', 'chdir',
             'truncate', 'fsync'}
MUTATING = {'open_w', 'write', 'rename', 'unlink', 'mkdir', 'rmdir', 'truncate', 'close_w'}


class Kernel:
    def __init__(self):
        self.installed = False
        self.current = None
        self.reset()

    def reset(self, seed=0, epoch=1_700_000_000.0):
        self.fs = FS()
        self.fs.mkdirs('/sim/home')
        self.fs.mkdirs('/sim/tmp')
        self.seed = seed
        self.now = float(epoch)
        self.epoch = float(epoch)
        self.fds = {}
        self.nextfd = FD_BASE
        self.procs = []
        self.current = None
        self.trace = None  # list or None
        self.fired = {}  # fault kind -> count
        self.fired_at = []  # (proc, op index, kind, opname, pathclass)
        self.outside = []  # attempted mutations outside /sim
        self.harness_errors = []
        self.disk = {}  # volume prefix -> bytes left (None: unlimited)
        self.sticky = []  # [(path predicate, opset, errno, label)]
        self.op_hook = None  # callable(proc, opname, path) run before every operation
        self.maxops = 200000
        self.totalops = 0
        self.sched = None
        self.op_hash = hashlib.blake2b(digest_size=8)
        self.cover = set()
        self.journal = None  # changes of directories not yet known to be on the device (None: no power failures in this run)

    # ------------------------------------------------------------ power failures
    def log(self, undo):
        """a directory has been changed: how to take it back"""
        if self.journal is not None:
            self.journal.append((self.now, undo))

    def change(self, node):
        """the content of a file is going to be changed"""
        if self.journal is not None and node.dirty is None:
            node.dirty, node.durable = self.now, bytes(node.data)

    def sync(self, node=None):
        """flush one file and the journal, or everything"""
        if self.journal is None:
            return
        if node is None:
            for path, n in self.files():
                n.dirty = n.durable = None
        elif isinstance(node, FileNode):
            node.dirty = node.durable = None
        del self.journal[:]

    def files(self):
        out = []

        def rec(d, path):
            for name in sorted(d.kids):
                kid = d.kids[name]
                if isinstance(kid, DirNode):
                    rec(kid, f'{path}/{name}')
                else:
                    out.append((f'{path}/{name}', kid))
        rec(self.fs.root, ROOT)
        return out

    def power(self, seed):
        """The power fails: every program is gone, and only what is on the device is left.

        The device keeps its directories in a journal that is written in order, every few seconds and whenever a file is flushed;
        the contents of files are written when they are flushed, or half a minute later, or at any time before.
        """
        r = random.Random(seed)
        for p in self.procs:
            if not p.dead:
                self.kill(p)
        j = self.journal
        lo = 0
        while lo < len(j) and self.now - j[lo][0] > JOURNAL_TIME:
            lo += 1
        keep = r.choice([lo, len(j), r.randint(lo, len(j))])
        lost = {}
        for t, undo in reversed(j[keep:]):
            undo()
        for path, n in self.files():
            if n.dirty is None:
                continue
            if self.now - n.dirty <= WRITEBACK_TIME and n.data:
                data = bytes(n.data)
                kinds = ['empty', 'empty', 'prefix', 'zeros', 'full'] + (['old'] if n.durable else [])
                k = r.choice(kinds)
                cut = r.randrange(len(data))
                if k == 'empty':
                    n.data[:] = b''
                elif k == 'prefix':
                    n.data[:] = data[:cut]
                elif k == 'zeros':
                    n.data[:] = data[:cut] + bytes(len(data) - cut)
                elif k == 'old':
                    n.data[:] = n.durable
                lost[path] = k
                self.fired['power_' + k] = self.fired.get('power_' + k, 0) + 1
            n.dirty = n.durable = None
        self.fired['power'] = self.fired.get('power', 0) + 1
        if len(j) > keep:
            self.fired['power_directory'] = self.fired.get('power_directory', 0) + 1
        lost['directory changes'] = len(j) - keep
        del j[:]
        return lost

    # ------------------------------------------------------------ processes
    def new_proc(self, cwd='/sim/home', env=None):
        p = Proc(self, 1000 + len(self.procs), cwd, env)
        self.procs.append(p)
        return p

    def close_fds_of(self, proc):
        for fd in [fd for fd, of in self.fds.items() if of.proc is proc]:
            del self.fds[fd]

    # ------------------------------------------------------------ the op gate
    def op(self, name, path, size=0, src=None):
        """Gate of every simulated storage operation.  Returns the matching benign fault, if any."""
        p = self.current
        if p is None or p.booting:
            return None
        if p.dead:
            raise SimCrash()
        if self.sched is not None:
            self.sched.yield_point(p, name, path)
            if p.dead:
                raise SimCrash()
        i = p.nops
        p.nops += 1
        self.totalops += 1
        if self.totalops > self.maxops:
            raise SimStuck(f'more than {self.maxops} storage operations')
        self.now += 0.001
        self.op_hash.update(f'{p.pid}{name}{path}{size};'.encode('utf-8', 'surrogateescape'))
        if self.trace is not None:
            self.trace.append((p.pid, i, name, path, size, src))
        ev = p.events.get(i)
        if ev:
            cur = self.current
            self.current = None
            try:
                for f in ev:
                    f()
            finally:
                self.current = cur
        if self.op_hook is not None:
            cur = self.current
            self.current = None
            try:
                self.op_hook(p, i, name, path)
            finally:
                self.current = cur
        f = p.faults.get(i)
        if f is not None and name == 'chdir' and f['kind'] != 'crash' and not path.startswith('/sim/tmp/'):
            f = None  # going back to an existing directory does not fail
        if f is not None:
            kind = f['kind']
            if kind == 'crash':
                if name == 'write' and f.get('frac') is not None:
                    return f  # handled inside the write: a prefix reaches the disk
                self._fire(p, i, kind, name, path)
                self.kill(p)
                raise SimCrash()
            if kind == 'intr':
                self._fire(p, i, kind, name, path)
                raise KeyboardInterrupt()
            if kind == 'nomem':
                if name in FAULTABLE:
                    self._fire(p, i, kind, name, path)
                    raise MemoryError()
            elif kind in ('short',):
                if name in ('read', 'write') and f.get('only', name) == name:
                    self._fire(p, i, kind, name, path)
                    return f
            elif kind == 'full':
                # the volume of this path runs out of space from here on
                self._fire(p, i, kind, name, path)
                self.disk[self.volume(path)] = int(f.get('left', 0))
            elif kind == 'sticky':
                # the file of this path is seized by another program / disappears from the network
                if name in FAULTABLE:
                    self._fire(p, i, f'sticky_{f["err"]}', name, path)
                    self.sticky.append((path, ERR_BY_KIND[f['err']]))
            elif name in FAULTABLE:
                if name == 'write' and f.get('frac') is not None:
                    return f
                self._fire(p, i, kind, name, path)
                raise oserr(ERR_BY_KIND[kind], path)
        for spath, code in self.sticky:
            if name in FAULTABLE and name not in ('close_w', 'read', 'write') and spath in (path, src):
                raise oserr(code, path)
        return None

    def _fire(self, p, i, kind, name, path):
        self.fired[kind] = self.fired.get(kind, 0) + 1
        self.fired_at.append((p.pid, i, kind, name, pathclass(path)))

    def kill(self, p):
        p.dead = True
        self.close_fds_of(p)

    def volume(self, path):
        return '/sim/tmp' if path.startswith('/sim/tmp') else '/sim'

    # ------------------------------------------------------------ path handling
    def simpath(self, path):
        """Absolute simulated path, or None for a path of the real file system."""
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if '\x00' in path:
            raise ValueError('embedded null byte')
        if not path.startswith('/'):
            p = self.current
            if p is None:
                return None
            path = f'{p.cwd}/{path}' if path else p.cwd + '/\x01'
        if path == ROOT or path.startswith(ROOT + '/'):
            parts = FS.parts(path)
            out = ROOT + ''.join('/' + x for x in parts)
            return out
        if self.current is not None and '/../' in path or path.endswith('/..'):
            q = os.path.normpath(path)
            if q == ROOT or q.startswith(ROOT + '/'):
                return q
        return None

    def deny(self, what, path):
        """A mutation outside the simulated tree was attempted."""
        self.outside.append((what, str(path)))
        raise oserr(errno.EACCES, str(path))

    def _statres(self, n):
        if isinstance(n, DirNode):
            st = (n.mode, n.ino, 77, 2, 0, 0, 4096, n.mtime, n.mtime, n.mtime)
        else:
            st = (n.mode, n.ino, 77, 1, 0, 0, len(n.data), n.mtime, n.mtime, n.mtime)
        ints = tuple(int(x) for x in st)
        return os.stat_result(ints[:10] + (n.mtime, n.mtime, n.mtime, int(n.mtime) * 10**9, int(n.mtime) * 10**9, int(n.mtime) * 10**9))

    # ------------------------------------------------------------ system calls
    def sys_open(self, path, flags, mode=0o777):
        sp = path
        wr = (flags & 3) != os.O_RDONLY or flags & (os.O_CREAT | os.O_TRUNC)
        self.op('open_w' if wr else 'open_r', sp)
        if flags & getattr(os, 'O_TMPFILE', 0) == getattr(os, 'O_TMPFILE', -1):
            raise oserr(errno.EOPNOTSUPP, sp)
        d, name = (None, None)
        try:
            node = self.fs.walk_to(sp)
        except OSError as ex:
            if ex.errno != errno.ENOENT or not flags & os.O_CREAT:
                raise
            d, name = self.fs.parent(sp)
            node = d.kids[name] = FileNode(b'', self.now, 0o100666 & ~self._um(), self.fs.next_ino())
            d.mtime = self.now
            self.change(node)
            self.log(lambda: d.kids.pop(name, None))
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, sp)
            if isinstance(node, DirNode):
                if wr:
                    raise oserr(errno.EISDIR, sp)
            else:
                if wr and not node.mode & 0o200:
                    raise oserr(errno.EACCES, sp)
                if not wr and not node.mode & 0o400:
                    raise oserr(errno.EACCES, sp)
                if flags & os.O_TRUNC:
                    self._credit(sp, len(node.data))
                    self.change(node)
                    node.data[:] = b''
                    node.mtime = self.now
        fd = self.nextfd
        self.nextfd += 1
        of = OpenFile(node, sp, flags, self.current, fd)
        self.fds[fd] = of
        return fd

    def _um(self):
        return self.current.umask if self.current else 0o022

    def _of(self, fd):
        p = self.current
        if p is not None and p.dead:
            raise SimCrash()
        try:
            return self.fds[fd]
        except KeyError:
            raise oserr(errno.EBADF) from None

    def _credit(self, path, n):
        v = self.volume(path)
        if self.disk.get(v) is not None:
            self.disk[v] += n

    def sys_read(self, fd, n):
        of = self._of(fd)
        if isinstance(of.node, DirNode):
            raise oserr(errno.EISDIR, of.path)
        f = self.op('read', of.path, n)
        of = self._of(fd)
        if f is not None and f['kind'] == 'short' and n > 1:
            n = max(1, int(n * f.get('frac', 0.5)) if n < 1 << 19 else int(f.get('frac', 0.5) * max(1, len(of.node.data) - of.pos)))
        data = bytes(of.node.data[of.pos:of.pos + n])
        of.pos += len(data)
        return data

    def sys_write(self, fd, data):
        of = self._of(fd)
        f = self.op('write', of.path, len(data))
        of = self._of(fd)
        v = self.volume(of.path)
        left = self.disk.get(v)
        if f is not None:
            kind = f['kind']
            cut = min(len(data), int(len(data) * f.get('frac', 0.5)))
            p = self.current
            if kind == 'crash':
                self._fire(p, p.nops - 1, 'torn_write_crash', 'write', of.path)
                self._put(of, data[:cut])
                self.kill(p)
                raise SimCrash()
            if kind == 'short':
                cut = max(1, cut)
                self._put(of, data[:cut])
                return cut
            # error after a prefix has been written
            self._fire(p, p.nops - 1, f'{kind}_partial', 'write', of.path)
            self._put(of, data[:cut])
            raise oserr(ERR_BY_KIND[kind], of.path)
        if left is not None:
            end = (len(of.node.data) if of.flags & os.O_APPEND else of.pos) + len(data)
            grow = max(0, end - len(of.node.data))
            if grow > left:
                fit = len(data) - (grow - left)
                if fit <= 0:
                    self.fired['enospc_volume'] = self.fired.get('enospc_volume', 0) + 1
                    raise oserr(errno.ENOSPC, of.path)
                data = data[:fit]
                grow = left
            self.disk[v] = left - grow
        self._put(of, data)
        return len(data)

    def _put(self, of, data):
        n = of.node
        self.change(n)
        if of.flags & os.O_APPEND:
            of.pos = len(n.data)
        if of.pos > len(n.data):
            n.data.extend(b'\0' * (of.pos - len(n.data)))
        n.data[of.pos:of.pos + len(data)] = data
        of.pos += len(data)
        n.mtime = self.now

    def sys_lseek(self, fd, pos, whence):
        of = self._of(fd)
        if whence == 0:
            new = pos
        elif whence == 1:
            new = of.pos + pos
        else:
            new = len(of.node.data) + pos
        if new < 0:
            raise oserr(errno.EINVAL)
        of.pos = new
        return new

    def sys_ftruncate(self, fd, size):
        of = self._of(fd)
        self.op('truncate', of.path, size)
        self._trunc(of.node, size, of.path)

    def _trunc(self, n, size, path):
        self.change(n)
        if size < len(n.data):
            self._credit(path, len(n.data) - size)
            del n.data[size:]
        else:
            n.data.extend(b'\0' * (size - len(n.data)))
        n.mtime = self.now

    def sys_close(self, fd):
        if fd not in self.fds:
            return
        of = self.fds[fd]
        try:
            if (of.flags & 3) != os.O_RDONLY:
                self.op('close_w', of.path)
            elif self.current is not None and self.current.dead:
                raise SimCrash()
        finally:
            # POSIX: the descriptor is gone even if close() reports an error
            self.fds.pop(fd, None)

    def sys_fsync(self, fd):
        of = self._of(fd)
        self.op('fsync', of.path)
        self.sync(of.node)

    def sys_sync(self):
        if self.current is None:
            return _real['sync']()
        self.op('fsync', ROOT)
        self.sync()

    def sys_rename(self, a, b):
        self.op('rename', b, 0, a)
        da, na = self.fs.parent(a)
        if na not in da.kids:
            raise oserr(errno.ENOENT, a, b)
        node = da.kids[na]
        db, nb = self.fs.parent(b)
        old = db.kids.get(nb)
        if old is node:
            return
        if isinstance(old, DirNode):
            if not isinstance(node, DirNode):
                raise oserr(errno.EISDIR, a, b)
            if old.kids:
                raise oserr(errno.ENOTEMPTY, a, b)
        elif old is not None and isinstance(node, DirNode):
            raise oserr(errno.ENOTDIR, a, b)
        if self.volume(a) != self.volume(b):
            raise oserr(errno.EXDEV, a, b)
        if isinstance(old, FileNode):
            self._credit(b, len(old.data))
        del da.kids[na]
        db.kids[nb] = node
        da.mtime = db.mtime = self.now

        def undo():
            db.kids.pop(nb, None)
            if old is not None:
                db.kids[nb] = old
            da.kids[na] = node
        self.log(undo)

    def sys_unlink(self, a):
        self.op('unlink', a)
        d, n = self.fs.parent(a)
        if n not in d.kids:
            raise oserr(errno.ENOENT, a)
        node = d.kids[n]
        if isinstance(node, DirNode):
            raise oserr(errno.EISDIR, a)
        self._credit(a, len(node.data))
        del d.kids[n]
        d.mtime = self.now
        self.log(lambda: d.kids.__setitem__(n, node))

    def sys_mkdir(self, a, mode=0o777):
        self.op('mkdir', a)
        d, n = self.fs.parent(a)
        if n in d.kids:
            raise oserr(errno.EEXIST, a)
        d.kids[n] = DirNode(self.now, ino=self.fs.next_ino())
        d.mtime = self.now
        self.log(lambda: d.kids.pop(n, None))

    def sys_rmdir(self, a):
        self.op('rmdir', a)
        d, n = self.fs.parent(a)
        if n not in d.kids:
            raise oserr(errno.ENOENT, a)
        node = d.kids[n]
        if isinstance(node, FileNode):
            raise oserr(errno.ENOTDIR, a)
        if node.kids:
            raise oserr(errno.ENOTEMPTY, a)
        del d.kids[n]
        d.mtime = self.now
        self.log(lambda: d.kids.__setitem__(n, node))

    def listing(self, a):
        self.op('scandir', a)
        node = self.fs.walk_to(a)
        if isinstance(node, FileNode):
            raise oserr(errno.ENOTDIR, a)
        names = sorted(node.kids, key=lambda x: h64(self.seed, 'dir', x))
        return node, names


K = Kernel()


def pathclass(path):
    if path is None:
        return '-'
    if path.startswith('/sim/tmp'):
        return 'tmp:' + path.rsplit('/', 1)[-1] if '/sim/tmp/odf_' in path and path.count('/') > 3 else 'tmp'
    name = path.rsplit('/', 1)[-1]
    if name.endswith('.bak'):
        return 'bak'
    for e in ('.yw7', '.odt', '.ods', '.lock', '.ini', '.json', '.po', '.xml'):
        if name.endswith(e):
            return e[1:]
    return 'other'


# ---------------------------------------------------------------- patched entry points
def _active():
    return K.current is not None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _active():
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    proc = K.current
    if isinstance(file, int):
        if file < FD_BASE:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        fd, name = file, file
        if fd not in K.fds:
            raise oserr(errno.EBADF)
    else:
        sp = K.simpath(file)
        m = set(mode)
        if sp is None:
            if m & set('wax+'):
                if os.fspath(file) in ('/dev/null', os.devnull):
                    return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
                K.deny('open_w', file)
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        name = file
        flags = 0
        if 'r' in m:
            flags = os.O_RDWR if '+' in m else os.O_RDONLY
        elif 'w' in m:
            flags = (os.O_RDWR if '+' in m else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC
        elif 'a' in m:
            flags = (os.O_RDWR if '+' in m else os.O_WRONLY) | os.O_CREAT | os.O_APPEND
        elif 'x' in m:
            flags = (os.O_RDWR if '+' in m else os.O_WRONLY) | os.O_CREAT | os.O_EXCL
        else:
            raise ValueError(f'invalid mode: {mode!r}')
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = K.sys_open(sp, flags, 0o666)
            if isinstance(K.fds[fd].node, DirNode):
                K.fds.pop(fd)
                raise oserr(errno.EISDIR, file if isinstance(file, str) else sp)
    binary = 'b' in mode
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode does not take text arguments')
    raw = SimRaw(K, fd, mode.replace('t', ''), name, closefd)
    if 'a' in mode:
        K.fds[fd].pos = len(K.fds[fd].node.data)
    size = buffering
    line = False
    if buffering == 1 and not binary:
        size, line = -1, True
    if size < 0:
        size = proc.env['bufsize']
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif raw._w:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    txt = io.TextIOWrapper(buf, encoding or proc.env['encoding'], errors, newline, line)
    txt.mode = mode
    return txt


def _mut(name, fn):
    real = _real.get(name)

    def wrapper(path, *a, **kw):
        if not _active():
            return real(path, *a, **kw)
        for dfd in ('dir_fd', 'src_dir_fd', 'dst_dir_fd'):
            if kw.get(dfd) is not None:
                raise NotImplementedError('dir_fd')
            kw.pop(dfd, None)
        kw.pop('follow_symlinks', None)
        if isinstance(path, int) and path >= FD_BASE:
            path = K._of(path).path
        elif isinstance(path, int):
            return real(path, *a, **kw)
        sp = K.simpath(path)
        if sp is None:
            K.deny(name, path)
        return fn(sp, *a, **kw)

    wrapper.__name__ = name
    return wrapper


def _stat(path, *, dir_fd=None, follow_symlinks=True, _r='stat'):
    if not _active():
        return _real[_r](path, dir_fd=dir_fd) if _r == 'lstat' else _real[_r](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if isinstance(path, int):
        if path >= FD_BASE:
            return K._statres(K._of(path).node)
        return _real['stat'](path)
    sp = K.simpath(path)
    if sp is None:
        return _real[_r](path)
    K.op('stat', sp)
    try:
        return K._statres(K.fs.walk_to(sp))
    except OSError as ex:
        raise oserr(ex.errno, path if isinstance(path, str) else sp) from None


def _lstat(path, *, dir_fd=None):
    return _stat(path, dir_fd=dir_fd, _r='lstat')


def _fstat(fd):
    if isinstance(fd, int) and fd >= FD_BASE:
        return K._statres(K._of(fd).node)
    return _real['fstat'](fd)


def _access(path, mode, **kw):
    if not _active():
        return _real['access'](path, mode, **kw)
    sp = K.simpath(path)
    if sp is None:
        return _real['access'](path, mode)
    K.op('stat', sp)
    n = K.fs.lookup(sp)
    if n is None:
        return False
    if mode & os.W_OK and not n.mode & 0o200:
        return False
    if mode & os.R_OK and not n.mode & 0o400:
        return False
    return True


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not _active():
        return _real['open'](path, flags, mode, dir_fd=dir_fd)
    sp = K.simpath(path)
    if sp is None:
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            K.deny('open_w', path)
        return _real['open'](path, flags, mode)
    return K.sys_open(sp, flags, mode)


def _fdop(name, fn):
    real = _real.get(name)

    def wrapper(fd, *a, **kw):
        if isinstance(fd, int) and fd >= FD_BASE:
            return fn(fd, *a, **kw)
        return real(fd, *a, **kw)

    return wrapper


def _two(name, fn):
    real = _real.get(name)

    def wrapper(a, b, **kw):
        if not _active():
            return real(a, b, **kw)
        sa, sb = K.simpath(a), K.simpath(b)
        if sa is None or sb is None:
            K.deny(name, a if sa is None else b)
        return fn(sa, sb)

    return wrapper


def _rename(a, b):
    try:
        return K.sys_rename(a, b)
    except OSError:
        raise


def _listdir(path='.'):
    if not _active():
        return _real['listdir'](path)
    sp = K.simpath(path)
    if sp is None:
        return _real['listdir'](path)
    return K.listing(sp)[1]


def _scandir(path='.'):
    if not _active():
        return _real['scandir'](path)
    if isinstance(path, int):
        raise NotImplementedError
    sp = K.simpath(path)
    if sp is None:
        return _real['scandir'](path)
    node, names = K.listing(sp)
    base = os.fspath(path)
    return ScanIter([Entry(n, os.path.join(base, n), node.kids[n]) for n in names])


def _chdir(path):
    if not _active():
        return _real['chdir'](path)
    sp = K.simpath(path)
    if sp is None:
        K.deny('chdir', path)
    K.op('chdir', sp)
    node = K.fs.walk_to(sp)
    if isinstance(node, FileNode):
        raise oserr(errno.ENOTDIR, path)
    K.current.cwd = sp


def _getcwd():
    if not _active():
        return _real['getcwd']()
    if K.current.dead:
        raise SimCrash()
    if not K.fs.exists(K.current.cwd):
        raise oserr(errno.ENOENT)
    return K.current.cwd


def _copy_attr(sp, *a, **kw):
    node = K.fs.walk_to(sp)
    return node


def _utime(sp, times=None, *, ns=None, **kw):
    node = K.fs.walk_to(sp)
    if ns is not None:
        node.mtime = ns[1] / 1e9
    elif times is not None:
        node.mtime = float(times[1])
    else:
        node.mtime = K.now


def _chmod(sp, mode, **kw):
    node = K.fs.walk_to(sp)
    node.mode = (node.mode & ~0o7777) | (mode & 0o7777)


def _link(a, b):
    K.op('rename', b, 0, a)
    node = K.fs.walk_to(a)
    d, n = K.fs.parent(b)
    if n in d.kids:
        raise oserr(errno.EEXIST, a, b)
    d.kids[n] = node


def _nosup(sp, *a, **kw):
    raise oserr(errno.ENOTSUP, sp)


def _readlink(path, *, dir_fd=None):
    if not _active():
        return _real['readlink'](path, dir_fd=dir_fd)
    sp = K.simpath(path)
    if sp is None:
        return _real['readlink'](path)
    raise oserr(errno.EINVAL, path)


class _VFSStat:
    f_bsize = f_frsize = 4096
    f_blocks = f_bfree = f_bavail = 1 << 20


def _statvfs(path):
    if not _active():
        return _real['statvfs'](path)
    return _VFSStat


def _system(cmd):
    if not _active():
        return _real['system'](cmd)
    K.current.execs.append(cmd)
    return 0


def _urandom(n):
    if not _active():
        return _real['urandom'](n)
    p = K.current
    p.tmpcount += 1
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.blake2b(f'{K.seed}/{p.pid}/{p.tmpcount}/{i}'.encode()).digest()
        i += 1
    return out[:n]


def _forbidden(name):
    real = _real.get(name)

    def f(*a, **kw):
        if not _active():
            return real(*a, **kw)
        K.current.execs.append((name, repr(a)))
        K.outside.append((name, repr(a)))
        raise oserr(errno.EPERM, name)

    return f


class _Names:
    """Temp names: derived from the plan's seed, unique per process and call."""

    def __iter__(self):
        return self

    def __next__(self):
        p = K.current
        if p is None:
            return 'h' + hashlib.blake2b(os.urandom(8), digest_size=6).hexdigest()
        p.tmpcount += 1
        return f'{h64(K.seed, p.pid, p.tmpcount):016x}'[:8]


class SimDatetime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        if not _active():
            return _real_datetime.now(tz)
        return cls.fromtimestamp(K.now, tz or None) if tz else _real_datetime.utcfromtimestamp(K.now)

    @classmethod
    def today(cls):
        if not _active():
            return _real_datetime.today()
        return _dt_utc(K.now)

    @classmethod
    def utcnow(cls):
        if not _active():
            return _real_datetime.utcnow()
        return _dt_utc(K.now)


def _dt_utc(t):
    e = _real_datetime(1970, 1, 1) + _dtmod.timedelta(seconds=t)
    return e


class SimDate(_real_date):
    @classmethod
    def today(cls):
        if not _active():
            return _real_date.today()
        return _dt_utc(K.now).date()


def _t_time():
    return K.now if _active() else _real_time()


def _t_mono():
    return K.now - K.epoch if _active() else _real_monotonic()


def _t_perf():
    return K.now - K.epoch if _active() else _real_perf()


def _t_time_ns():
    return int(_t_time() * 1e9)


def _t_localtime(secs=None):
    if _active():
        return _real_gmtime(K.now if secs is None else secs)
    return _real_localtime() if secs is None else _real_localtime(secs)


def _t_gmtime(secs=None):
    if secs is None and _active():
        secs = K.now
    return _real_gmtime() if secs is None else _real_gmtime(secs)


def _t_strftime(fmt, t=None):
    if t is None:
        t = _t_localtime()
    return _real_strftime(fmt, t)


def _t_sleep(s):
    if not _active():
        return _real_sleep(s)
    K.op('sleep', '')
    K.now += s


def _l_getlocale(category=locale.LC_CTYPE):
    if _active():
        return K.current.env['locale']
    return _real_getlocale(category)


def _l_getdefaultlocale(*a, **kw):
    if _active():
        return K.current.env['locale']
    return _real_getdefaultlocale(*a, **kw)


def _l_getpref(*a):
    if _active():
        return K.current.env['encoding']
    return 'UTF-8'


def _input(prompt=''):
    if not _active():
        return _real_input(prompt)
    p = K.current
    p.stdout.append(str(prompt))
    if p.inputs is None:
        raise EOFError('EOF when reading a line')
    return p.inputs(prompt)


class _Std:
    """sys.stdout / sys.stderr of simulated programs."""
    encoding = 'utf-8'
    errors = 'replace'

    def __init__(self, which, real):
        self.which, self.real = which, real

    def write(self, s):
        p = K.current
        if p is None:
            return self.real.write(s)
        if p.dead:
            raise SimCrash()
        getattr(p, self.which).append(s)
        return len(s)

    def flush(self):
        if K.current is None:
            self.real.flush()

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()

    def __getattr__(self, n):
        return getattr(self.real, n)


def install():
    """Route everything through the kernel.  Inactive while no simulated process runs."""
    if K.installed:
        return
    K.installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.open = _os_open
    for n in ('stat', 'lstat', 'fstat', 'access', 'listdir', 'scandir', 'chdir', 'getcwd', 'readlink', 'statvfs', 'system', 'urandom'):
        setattr(os, n, globals()['_' + n])
    os.getcwdb = lambda: os.fsencode(os.getcwd())
    os.close = _fdop('close', K.sys_close)
    os.read = _fdop('read', K.sys_read)
    os.write = _fdop('write', lambda fd, b: K.sys_write(fd, bytes(b)))
    os.lseek = _fdop('lseek', K.sys_lseek)
    os.fsync = _fdop('fsync', K.sys_fsync)
    os.fdatasync = _fdop('fdatasync', K.sys_fsync)
    if 'sync' in _real:
        os.sync = K.sys_sync
    os.ftruncate = _fdop('ftruncate', K.sys_ftruncate)
    os.isatty = _fdop('isatty', lambda fd: False)
    os.fchmod = _fdop('fchmod', lambda fd, mode: None)
    os.posix_fallocate = _fdop('posix_fallocate', lambda fd, off, ln: None)

    def trunc(sp, size):
        K.op('truncate', sp, size)
        K._trunc(K.fs.walk_to(sp), size, sp)
    os.truncate = _mut('truncate', trunc)
    os.rename = _two('rename', _rename)
    os.replace = _two('replace', _rename)
    os.link = _two('link', _link)
    os.symlink = _mut('symlink', _nosup)
    os.mkfifo = _mut('mkfifo', _nosup)
    os.mknod = _mut('mknod', _nosup)
    os.remove = _mut('remove', lambda sp: K.sys_unlink(sp))
    os.unlink = _mut('unlink', lambda sp: K.sys_unlink(sp))
    os.mkdir = _mut('mkdir', lambda sp, mode=0o777: K.sys_mkdir(sp, mode))
    os.rmdir = _mut('rmdir', lambda sp: K.sys_rmdir(sp))
    os.utime = _mut('utime', _utime)
    os.chmod = _mut('chmod', _chmod)
    os.chown = _mut('chown', lambda sp, *a: None)
    for n in ('listxattr', 'getxattr', 'setxattr', 'removexattr'):
        setattr(os, n, _mut(n, _nosup))
    os.getpid = lambda: K.current.pid if _active() else _real['getpid']()
    for n in ('fork', 'kill', 'killpg', 'execv', 'execve', 'execvp', 'posix_spawn', 'posix_spawnp', 'abort', 'chroot', 'popen'):
        if n in _real:
            setattr(os, n, _forbidden(n))
    os.supports_dir_fd = set()
    os.supports_fd = set()
    os.supports_follow_symlinks = set()
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    shutil._HAS_FCOPYFILE = False
    shutil.rmtree.avoids_symlink_attacks = False
    tempfile._get_candidate_names = lambda: _Names()
    tempfile.tempdir = '/sim/tmp'
    tempfile._O_TMPFILE_WORKS = False
    time.time = _t_time
    time.time_ns = _t_time_ns
    time.monotonic = _t_mono
    time.perf_counter = _t_perf
    time.localtime = _t_localtime
    time.gmtime = _t_gmtime
    time.strftime = _t_strftime
    time.sleep = _t_sleep
    _dtmod.datetime = SimDatetime
    _dtmod.date = SimDate
    locale.getlocale = _l_getlocale
    locale.getdefaultlocale = _l_getdefaultlocale
    locale.getpreferredencoding = _l_getpref
    builtins.input = _input
    sys.stdout = _Std('stdout', sys.stdout)
    sys.stderr = _Std('stderr', sys.stderr)
    import subprocess
    subprocess._USE_POSIX_SPAWN = False
    import _posixsubprocess
    _rf = subprocess._fork_exec

    def fe(*a, **kw):
        if _active():
            K.current.execs.append(('spawn', repr(a[0])))
            K.outside.append(('spawn', repr(a[0])))
            raise oserr(errno.EPERM, 'spawn')
        return _rf(*a, **kw)
    subprocess._fork_exec = fe


# ---------------------------------------------------------------- scheduler for several programs
class Scheduler:
    """Runs simulated programs in threads, one at a time; every switch is a choice of the plan."""

    def __init__(self, kern, choose):
        self.k = kern
        self.choose = choose  # callable(list of runnable pids, current pid) -> pid
        self.procs = []
        self.switches = 0
        self.order = []
        self.main = threading.Semaphore(0)

    def spawn(self, proc, fn):
        proc.sem = threading.Semaphore(0)
        proc.done = False

        def body():
            proc.sem.acquire()
            self._enter(proc)
            try:
                proc.result = fn()
            except SimCrash:
                proc.result = 'crash'
            except BaseException as ex:  # harness error; reported by the caller
                proc.result = ex
            proc.done = True
            self.k.current = None
            self._next(proc, finished=True)

        proc.thread = threading.Thread(target=body, daemon=True)
        self.procs.append(proc)
        proc.thread.start()

    def _enter(self, proc):
        self.k.current = proc
        switch_modules(proc)

    def _next(self, proc, finished=False):
        alive = [p for p in self.procs if not p.done]
        if not alive:
            self.main.release()
            return
        pid = self.choose([p.pid for p in alive], None if finished else proc.pid)
        nxt = [p for p in alive if p.pid == pid][0]
        self.order.append(pid)
        if nxt is proc and not finished:
            return
        self.switches += 1
        nxt.sem.release()
        if not finished:
            proc.sem.acquire()
            self._enter(proc)

    def yield_point(self, proc, name, path):
        if len(self.procs) > 1:
            self._next(proc)

    def run(self):
        self.k.sched = self
        try:
            pid = self.choose([p.pid for p in self.procs], None)
            self.order.append(pid)
            first = [p for p in self.procs if p.pid == pid][0]
            first.sem.release()
            self.main.acquire()
            for p in self.procs:
                p.thread.join()
        finally:
            self.k.sched = None
            self.k.current = None


_installed_modules = [None]


def switch_modules(proc):
    """Make the module set of this simulated program the visible one."""
    if _installed_modules[0] is proc:
        return
    old = _installed_modules[0]
    names = [n for n in sys.modules if n == 'pywriter' or n.startswith('pywriter.') or n in EXTRA_MODULES]
    if old is not None:
        old.modules = {n: sys.modules[n] for n in names}
    for n in names:
        del sys.modules[n]
    if proc is not None:
        sys.modules.update(proc.modules)
    _installed_modules[0] = proc


EXTRA_MODULES = {'translations', 'msgfmt', 'pgettext', 'inliner'}
