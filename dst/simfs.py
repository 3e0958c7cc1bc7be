"""
File-system seam.

All file traffic of the code under test inside a scratch directory goes through
wrappers installed over open/io.open/os.* *before* the code is imported.  Real
files in the scratch directory hold the durable state; the wrappers decide
errors, short and torn writes, a full disk and the instant at which the process
is killed.  A kill raises SimCrash; from that moment every further file
operation of the killed incarnation is refused without touching the disk, so
buffered data that had not reached the (simulated) kernel is lost, exactly as
for a killed process.  Outside a simulation the wrappers only delegate.
"""

import builtins
import errno
import io
import os


class SimCrash(BaseException):
    """The simulated process is killed here."""


_real = {}
CUR = None          # the active SimFS, if any


class SimFS:
    """`faults`: list of dicts {op, at, kind}; fires at the `at`-th fault point
    of operation number `op` that the kind applies to (counting from `at`)."""

    APPLIES = {
        'crash': ('open_w', 'open_r', 'write', 'close_w', 'rename', 'remove', 'fsync', 'other'),
        'crash_after': ('open_w', 'write', 'rename', 'remove'),
        'torn': ('write',),
        'enospc': ('write', 'open_w'),
        'full': ('write',),
        'eio_write': ('write', 'fsync'),
        'short': ('write',),
        'eacces': ('open_w', 'rename'),
        'eio_rename': ('rename',),
        'eio_read': ('read',),
        'eio_open': ('open_r',),
        'emfile': ('open_r', 'open_w'),
        'short_read': ('read',),
    }

    def __init__(self, root, sim, bufsize=8192):
        self.root = os.path.realpath(root)
        self.sim = sim
        self.bufsize = bufsize
        self.epoch = 0
        self.dead = False
        self.op = -1
        self.point = 0
        self.pending = []
        self.full = False
        self.fired = []
        self.points = 0
        self.dirty = {}         # inode -> simulated time of last unsynced write

    # -- control -----------------------------------------------------------
    def begin(self, op, faults):
        self.op = op
        self.point = 0
        self.pending = [dict(f) for f in faults]
        self.fired = []
        self.full = False

    def end(self):
        self.pending = []
        self.full = False
        return self.fired

    def restart(self):
        """A new incarnation of the process: only the disk survives."""
        self.epoch += 1
        self.dead = False

    # -- fault points ------------------------------------------------------
    def hit(self, kind, what=''):
        """Called at each fault point; returns the fault to apply, or None."""
        if self.dead:
            raise SimCrash('dead')
        self.points += 1
        n = self.point
        self.point += 1
        if self.full and kind in ('write', 'open_w'):
            self.sim.fault('enospc_sticky')
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        for f in self.pending:
            if n >= f['at'] and kind in self.APPLIES[f['kind']]:
                self.pending.remove(f)
                self.fired.append((f['kind'], kind, what))
                self.sim.fault(f['kind'] + '@' + kind)
                k = f['kind']
                if k == 'crash':
                    self.crash()
                if k in ('enospc', 'full'):
                    if k == 'full':
                        self.full = True
                    raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
                if k in ('eio_write', 'eio_rename', 'eio_read', 'eio_open'):
                    raise OSError(errno.EIO, os.strerror(errno.EIO))
                if k == 'eacces':
                    raise OSError(errno.EACCES, os.strerror(errno.EACCES))
                if k == 'emfile':
                    raise OSError(errno.EMFILE, os.strerror(errno.EMFILE))
                return f
        return None

    def crash(self):
        self.dead = True
        raise SimCrash()

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def mark_dirty(self, fd):
        try:
            self.dirty[os.fstat(fd).st_ino] = self.sim.time
        except OSError:
            pass

    def power_cut(self, rng, writeback=30.0):
        """Un-synced data younger than the write-back interval may be lost:
        each such file loses a suffix of its contents or reads back as zeros
        there.  Called between incarnations; names are kept (metadata is
        journalled)."""
        lost = []
        for name in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, name)
            st = os.stat(p)
            t = self.dirty.get(st.st_ino)
            if t is None or self.sim.time - t >= writeback:
                continue
            how = rng.choice(['intact', 'truncate', 'zero', 'empty'])
            if how == 'intact':
                continue
            cut = 0 if how == 'empty' else rng.randrange(0, st.st_size + 1)
            with _real['open'](p, 'r+b') as f:
                f.truncate(cut)
                if how == 'zero':
                    f.truncate(st.st_size)
            lost.append((name, how))
            self.sim.fault('lost_write:' + how)
        self.dirty = {}
        return lost


class SimFileIO(io.FileIO):
    """Raw file whose reads and writes are fault points."""

    def __init__(self, fs, *args, **kw):
        io.FileIO.__init__(self, *args, **kw)
        self._fs = fs
        self._epoch = fs.epoch
        self._w = False

    def _alive(self):
        fs = self._fs
        if CUR is not fs or fs.dead or fs.epoch != self._epoch:
            raise SimCrash('stale')

    def write(self, b):
        self._alive()
        fs = self._fs
        n = memoryview(b).nbytes
        f = fs.hit('write')
        self._w = True
        if f is not None:
            k = f['kind']
            frac = f.get('frac', 0.5)
            part = min(n, int(n * frac))
            if k == 'torn':
                if part:
                    io.FileIO.write(self, memoryview(b).cast('B')[:part])
                fs.mark_dirty(self.fileno())
                fs.crash()
            if k == 'short' and n > 1:
                part = max(1, part)
                r = io.FileIO.write(self, memoryview(b).cast('B')[:part])
                fs.mark_dirty(self.fileno())
                return r
        r = io.FileIO.write(self, b)
        fs.mark_dirty(self.fileno())
        if f is not None and f['kind'] == 'crash_after':
            fs.crash()
        return r

    def _read_fault(self):
        self._alive()
        return self._fs.hit('read')

    def readinto(self, b):
        f = self._read_fault()
        if f is not None and f['kind'] == 'short_read':
            mv = memoryview(b).cast('B')
            if mv.nbytes > 1:
                return io.FileIO.readinto(self, mv[:max(1, mv.nbytes // 2)])
        return io.FileIO.readinto(self, b)

    def read(self, size=-1):
        f = self._read_fault()
        if f is not None and f['kind'] == 'short_read' and size and size > 1:
            size = max(1, size // 2)
        return io.FileIO.read(self, size)

    def readall(self):
        self._read_fault()
        return io.FileIO.readall(self)

    def truncate(self, size=None):
        self._alive()
        self._fs.hit('other')
        r = io.FileIO.truncate(self, size)
        self._fs.mark_dirty(self.fileno())
        return r

    def close(self):
        if self.closed:
            return
        fs = getattr(self, '_fs', None)
        if fs is not None and CUR is fs and not fs.dead and fs.epoch == self._epoch and self._w:
            try:
                fs.hit('close_w')
            except OSError:
                io.FileIO.close(self)
                raise
            except SimCrash:
                io.FileIO.close(self)
                raise
        io.FileIO.close(self)


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
    fs = CUR
    if fs is not None and isinstance(file, int):
        try:                    # a descriptor opened earlier (mkstemp, fdopen)
            target = os.readlink('/proc/self/fd/%d' % file)
        except OSError:
            target = None
        if target is None or not fs.inside(target):
            fs = None
    elif fs is not None and not fs.inside(file):
        fs = None
    if fs is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if fs.dead:
        raise SimCrash('dead')
    binary = 'b' in mode
    writing = any(c in mode for c in 'wax+')
    rawmode = ''.join(c for c in mode if c in 'rwax') + ('+' if '+' in mode else '')
    f = fs.hit('open_w' if writing else 'open_r', os.path.basename(str(file)) if not isinstance(file, int) else 'fd')
    if not isinstance(file, int):
        _permitted(file, writing, 'r' in mode or '+' in mode)
    raw = SimFileIO(fs, file, rawmode, closefd=closefd, opener=opener)
    if writing:
        fs.mark_dirty(raw.fileno())
    if f is not None and f['kind'] == 'crash_after':
        fs.crash()
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else fs.bufsize
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)


def _bits(path):
    try:
        return os.stat(path).st_mode
    except OSError:
        return None


def _permitted(path, writing, reading):
    """Permissions bind the simulated process although the simulator runs as root."""
    m = _bits(path)
    if m is not None and (writing and not m & 0o200 or reading and not m & 0o400):
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), os.fspath(path))


def _os_access(path, mode, **kw):
    fs = CUR
    r = _real['access'](path, mode, **kw)
    if fs is None or isinstance(path, int) or not fs.inside(path):
        return r
    m = _bits(path)
    if m is not None and (mode & os.W_OK and not m & 0o200 or mode & os.R_OK and not m & 0o400):
        return False
    return r


def _wrap_path(name, kind, nargs=1):
    real = getattr(os, name)
    _real[name] = real

    def wrapper(*args, **kw):
        fs = CUR
        if fs is None or not args or not any(not isinstance(a, int) and fs.inside(a) for a in args[:nargs]):
            return real(*args, **kw)
        f = fs.hit(kind, name)
        r = real(*args, **kw)
        if f is not None and f['kind'] == 'crash_after':
            fs.crash()
        return r
    wrapper.__name__ = name
    wrapper.__doc__ = real.__doc__
    setattr(os, name, wrapper)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = CUR
    if fs is None or dir_fd is not None or not fs.inside(path):
        return _real['os.open'](path, flags, mode, dir_fd=dir_fd)
    f = fs.hit('open_w' if flags & (os.O_WRONLY | os.O_RDWR) else 'open_r', os.path.basename(os.fspath(path)))
    _permitted(path, flags & (os.O_WRONLY | os.O_RDWR), not flags & os.O_WRONLY)
    fd = _real['os.open'](path, flags, mode)
    if f is not None and f['kind'] == 'crash_after':
        fs.crash()
    return fd


def _os_fsync(fd):
    fs = CUR
    if fs is None:
        return _real['fsync'](fd)
    if hasattr(fd, 'fileno'):
        fd = fd.fileno()
    fs.hit('fsync')
    fs.dirty.pop(os.fstat(fd).st_ino, None)


_installed = False


def install():
    """Put the seam in place; must run before the code under test is imported."""
    global _installed
    if _installed:
        return
    _installed = True
    _real['open'] = builtins.open
    _real['os.open'] = os.open
    _real['fsync'] = os.fsync
    builtins.open = _sim_open
    io.open = _sim_open
    _real['access'] = os.access
    os.open = _os_open
    os.access = _os_access
    os.fsync = _os_fsync
    for n in ('rename', 'replace'):
        _wrap_path(n, 'rename', 2)
    for n in ('link', 'symlink'):
        _wrap_path(n, 'rename', 2)
    for n in ('remove', 'unlink'):
        _wrap_path(n, 'remove')
    for n in ('mkdir', 'rmdir', 'truncate'):
        _wrap_path(n, 'other')


class active:
    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global CUR
        CUR = self.fs
        return self.fs

    def __exit__(self, *exc):
        global CUR
        CUR = None
        return False
