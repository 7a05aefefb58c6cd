"""Simulated disk seam.

Files live in a real scratch directory (Sim.root); every file operation the
code under test performs on paths below it passes through the wrappers here,
which are fault points and scheduling points.  Faults:

  eio / enospc / eacces / emfile  the call fails with that errno, no effect
  short                  a write stores only a prefix (reports it honestly)
  torn                   a write stores a prefix, then fails with EIO
  close_err              close() reports EIO (descriptor is closed)
  crash_before/after     the process dies before / after the call's effect
  crash_torn             the process dies after storing a prefix of a write

Power loss (Disk.power_loss): directory operations already performed survive
in order (journalled metadata); file *data* survives only up to the content at
its last fsync; newer data is kept, lost, torn or zero-filled as the plan says.
"""
import builtins
import errno
import fcntl
import io
import os
import sys

from . import kernel

R = {}
ERR = {'eio': errno.EIO, 'enospc': errno.ENOSPC, 'eacces': errno.EACCES,
       'emfile': errno.EMFILE, 'erofs': errno.EROFS, 'estale': errno.ESTALE, 'enoent': errno.ENOENT}
ERROR_KINDS = ('eio', 'enospc', 'eacces', 'emfile')
# which errors a call can meet
APPLIES = {
    'eio': None,
    'enospc': ('write', 'open-create', 'mkdir', 'rename', 'replace', 'link', 'fsync', 'ftruncate', 'truncate'),
    'eacces': ('open', 'open-create', 'unlink', 'remove', 'rename', 'replace', 'link', 'listdir', 'scandir', 'mkdir', 'rmdir', 'truncate'),
    'emfile': ('open', 'open-create', 'listdir', 'scandir'),
    # a folder on the way is missing
    'enoent': ('open-create', 'rename', 'replace', 'link', 'listdir', 'scandir'),
}


def applies(kind, call):
    a = APPLIES.get(kind)
    return a is None or call in a


class Disk(object):
    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.prefix = self.root + os.sep
        self.fds = {}          # fd -> path
        self.durable = {}      # inode -> bytes known to be on the platter
        self.dirty = {}        # inode -> True if written since last fsync
        self.sticky = None     # errno kind that every mutating call now gets
        self.windows = False   # rename() refuses to replace an existing file

    def owns(self, path):
        if path is None or isinstance(path, int):
            return isinstance(path, int) and path in self.fds
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(R['getcwd'](), p)
        return p == self.root or p.startswith(self.prefix)

    def rel(self, path):
        if isinstance(path, int):
            return self.rel(self.fds.get(path, '?'))
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if p.startswith(self.prefix):
            p = p[len(self.prefix):]
        return p

    def note_write(self, fd):
        ino = R['fstat'](fd).st_ino
        if ino not in self.durable:
            self.durable[ino] = b''
        self.dirty[ino] = True

    def note_fsync(self, fd):
        st = R['fstat'](fd)
        ino = st.st_ino
        # flush everything the kernel has for this file
        path = '/proc/self/fd/%d' % fd
        try:
            f = R['io_open'](path, 'rb')
            try:
                self.durable[ino] = f.read()
            finally:
                f.close()
        except (IOError, OSError):
            # write-only descriptor on a 0200 file: read through a fresh one
            p = self.fds.get(fd)
            if p and os.path.exists(p):
                f = R['io_open'](p, 'rb')
                try:
                    self.durable[ino] = f.read()
                finally:
                    f.close()
        self.dirty.pop(ino, None)

    def power_loss(self, rng):
        """Rewrite every file whose data was not flushed.  Returns the number
        of files that changed."""
        with self.sim.oracle():
            return self._power_loss(rng)

    def _power_loss(self, rng):
        changed = 0
        for d, dirs, files in os.walk(self.root):
            dirs.sort()
            for name in sorted(files):
                p = os.path.join(d, name)
                st = R['stat'](p)
                if not self.dirty.get(st.st_ino):
                    continue
                f = R['io_open'](p, 'rb')
                cur = f.read()
                f.close()
                old = self.durable.get(st.st_ino, b'')
                if cur == old:
                    continue
                how = rng.choice(['lost', 'lost', 'torn', 'zeros', 'kept'])
                if how == 'lost':
                    new = old
                elif how == 'torn':
                    new = cur[:rng.randrange(0, max(1, len(cur)))]
                elif how == 'zeros':
                    k = rng.randrange(0, max(1, len(cur)))
                    new = cur[:k] + b'\0' * (len(cur) - k)
                else:
                    new = cur
                self.sim.log('power-loss', self.rel(p), how, len(cur), len(new))
                self.sim.count_fault('power_' + how)
                if new != cur:
                    os.chmod(p, 0o600)
                    f = R['io_open'](p, 'wb')
                    f.write(new)
                    f.close()
                    changed += 1
                self.durable[st.st_ino] = new
                self.dirty.pop(st.st_ino, None)
        return changed


def _disk():
    s = kernel.CUR
    return None if s is None else s.disk


def _fail(s, kind, what):
    s.count_fault('disk_' + kind)
    s.log('fault', kind, what)
    raise OSError(ERR[kind], os.strerror(ERR[kind]), what)


def _pre(s, kind, detail, mutating=True, call=None):
    """Common fault handling before an operation.  Returns the fault."""
    f = s.point(kind, detail)
    d = s.disk
    if f is None:
        if d.sticky is not None and not s.in_oracle and applies(d.sticky, call or kind):
            _fail(s, d.sticky, detail)
        return None
    k = f['kind']
    if k == 'crash_before':
        s.count_fault('crash')
        s.crash()
    if k in ERR:
        if not applies(k, call or kind):
            return None
        if f.get('sticky'):
            d.sticky = k
        _fail(s, k, detail)
    return f


def _post(s, f):
    if f is not None and f['kind'] in ('crash_after', 'crash_torn'):
        s.count_fault('crash')
        s.crash()


def _path_op(name, mutating=True, two=False):
    real = getattr(os, name)
    R[name] = real

    def wrapper(path, *args, **kw):
        d = _disk()
        if d is None or not d.owns(path):
            return real(path, *args, **kw)
        s = d.sim
        detail = d.rel(path)
        if two and args:
            detail += '->' + d.rel(args[0])
        f = _pre(s, name, detail, mutating)
        if name == 'rename' and d.windows and os.path.lexists(args[0]):
            s.count_fault('rename_eexist')
            raise OSError(errno.EEXIST, os.strerror(errno.EEXIST), detail)
        r = real(path, *args, **kw)
        _post(s, f)
        return r
    wrapper.__name__ = name
    return wrapper


def sim_listdir(path='.'):
    d = _disk()
    if d is None or not d.owns(path):
        return R['listdir'](path)
    s = d.sim
    f = _pre(s, 'listdir', d.rel(path), False)
    names = sorted(R['listdir'](path))
    if s.shuffle_rng is not None and not s.in_oracle:
        s.shuffle_rng.shuffle(names)
    _post(s, f)
    return names


class _ScandirIter(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def sim_scandir(path='.'):
    d = _disk()
    if d is None or not d.owns(path):
        return R['scandir'](path)
    s = d.sim
    f = _pre(s, 'scandir', d.rel(path), False)
    with R['scandir'](path) as it:
        entries = sorted(it, key=lambda e: e.name)
    if s.shuffle_rng is not None and not s.in_oracle:
        s.shuffle_rng.shuffle(entries)
    _post(s, f)
    return _ScandirIter(entries)


def sim_open_fd(path, flags, mode=0o777, **kw):
    d = _disk()
    if d is None or not d.owns(path):
        return R['open'](path, flags, mode, **kw)
    s = d.sim
    write = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
    f = _pre(s, 'open', '%s %s' % (d.rel(path), 'w' if write else 'r'), write,
             'open-create' if flags & os.O_CREAT else 'open')
    fresh = bool(flags & os.O_CREAT) and not os.path.lexists(path)
    fd = R['open'](path, flags, mode, **kw)
    if fresh:
        ino = R['fstat'](fd).st_ino
        d.durable[ino] = b''
        d.dirty.pop(ino, None)
    if f is not None and f['kind'] in ('crash_after', 'crash_torn'):
        R['close'](fd)
        _post(s, f)
    d.fds[fd] = os.fspath(path)
    if flags & os.O_TRUNC:
        d.note_write(fd)
    return fd


def sim_close(fd):
    d = _disk()
    if d is None or fd not in d.fds:
        return R['close'](fd)
    s = d.sim
    p = d.fds[fd]
    if not s.alive():
        d.fds.pop(fd, None)
        return R['close'](fd)
    f = s.point('close', d.rel(p))
    if f is not None and f['kind'] == 'crash_before':
        d.fds.pop(fd, None)
        R['close'](fd)
        s.count_fault('crash')
        s.crash()
    d.fds.pop(fd, None)
    R['close'](fd)
    if f is not None and f['kind'] in ('close_err', 'eio'):
        _fail(s, 'eio', 'close ' + d.rel(p))
    _post(s, f)


def _do_write(d, fd, data, real_write):
    s = d.sim
    f = _pre(s, 'write', '%s %d' % (d.rel(fd), len(data)))
    k = f['kind'] if f else None
    d.note_write(fd)
    if k in ('short', 'torn', 'crash_torn') and len(data) > 1:
        n = 1 + int(f.get('frac', 0.5) * (len(data) - 2))
        n = max(1, min(n, len(data) - 1))
        real_write(bytes(data[:n]))
        if k == 'short':
            s.count_fault('disk_short')
            return n
        if k == 'torn':
            _fail(s, 'eio', 'write ' + d.rel(fd))
        s.count_fault('crash')
        s.crash()
    n = real_write(data)
    _post(s, f)
    return n


def sim_write(fd, data):
    d = _disk()
    if d is None or fd not in d.fds:
        return R['write'](fd, data)
    return _do_write(d, fd, data, lambda b: R['write'](fd, b))


def sim_fsync(fd):
    d = _disk()
    n = fd if isinstance(fd, int) else fd.fileno()
    if d is None or n not in d.fds:
        return R['fsync'](fd)
    s = d.sim
    f = _pre(s, 'fsync', d.rel(n))
    d.note_fsync(n)
    s.probe('fsync')
    _post(s, f)


def sim_ftruncate(fd, length):
    d = _disk()
    if d is None or fd not in d.fds:
        return R['ftruncate'](fd, length)
    f = _pre(d.sim, 'ftruncate', d.rel(fd))
    d.note_write(fd)
    R['ftruncate'](fd, length)
    _post(d.sim, f)


def sim_flock(fd, op):
    s = kernel.CUR
    if s is None or s.task is None:
        return R['flock'](fd, op)
    s.point('flock')
    if op & fcntl.LOCK_NB or op & fcntl.LOCK_UN:
        return R['flock'](fd, op)
    while True:
        try:
            return R['flock'](fd, op | fcntl.LOCK_NB)
        except (IOError, OSError):
            s.block(timeout=0.01)


class SimRaw(io.FileIO):
    """Raw file whose transfers are fault points."""

    def __init__(self, file, mode, closefd, opener, sim):
        self._sim = sim
        self._closing = False
        if isinstance(file, int):
            io.FileIO.__init__(self, file, mode, closefd)
            sim.disk.fds.setdefault(file, 'fd%d' % file)
        else:
            if opener is None:
                def opener(path, flags):
                    return sim_open_fd(path, flags, 0o666)
            io.FileIO.__init__(self, file, mode, closefd, opener=opener)

    def _dead(self):
        return self._sim.finished or not self._sim.alive()

    def write(self, b):
        if self._dead():
            if self._sim.finished:
                return len(memoryview(b).tobytes())
            raise kernel.SimCrash('dead write')
        data = memoryview(b).tobytes()
        return _do_write(self._sim.disk, self.fileno(), data,
                         lambda x: io.FileIO.write(self, x))

    def readall(self):
        f = self._read_point()
        r = io.FileIO.readall(self)
        _post(self._sim, f)
        return r

    def readinto(self, b):
        f = self._read_point()
        n = io.FileIO.readinto(self, b)
        _post(self._sim, f)
        return n

    def _read_point(self):
        if self._dead():
            raise kernel.SimCrash('dead read')
        f = _pre(self._sim, 'read', self._sim.disk.rel(self.fileno()), False)
        return f

    def truncate(self, size=None):
        if self._dead():
            raise kernel.SimCrash('dead truncate')
        f = _pre(self._sim, 'truncate', self._sim.disk.rel(self.fileno()))
        self._sim.disk.note_write(self.fileno())
        r = io.FileIO.truncate(self, size)
        _post(self._sim, f)
        return r

    def close(self):
        if self.closed:
            return io.FileIO.close(self)
        s = self._sim
        fd = self.fileno()
        name = s.disk.fds.pop(fd, '?')
        if self._closing or self._dead():
            return io.FileIO.close(self)
        self._closing = True
        try:
            f = s.point('close', s.disk.rel(name))
        except BaseException:
            io.FileIO.close(self)
            raise
        io.FileIO.close(self)
        if f is not None:
            if f['kind'] in ('crash_before', 'crash_after', 'crash_torn'):
                s.count_fault('crash')
                s.crash()
            if f['kind'] in ('close_err', 'eio'):
                _fail(s, 'eio', 'close ' + s.disk.rel(name))


def sim_io_open(file, mode='r', buffering=-1, encoding=None, errors=None,
                newline=None, closefd=True, opener=None):
    d = _disk()
    if d is None or not d.owns(file):
        return R['io_open'](file, mode, buffering, encoding, errors, newline,
                            closefd, opener)
    modes = set(mode)
    binary = 'b' in modes
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    raw = SimRaw(file, raw_mode, closefd, opener, d.sim)
    if 'w' in modes and not isinstance(file, int):
        pass
    if buffering == 0:
        return raw
    size = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
    if '+' in modes:
        buf = io.BufferedRandom(raw, size)
    elif 'r' in modes:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                            line_buffering=(buffering == 1))
    text.mode = mode
    return text


def install():
    R['getcwd'] = os.getcwd
    R['fstat'] = os.fstat
    R['io_open'] = io.open
    for name in ('stat', 'lstat'):
        R[name] = getattr(os, name)
    for name in ('listdir', 'scandir', 'open', 'close', 'write', 'fsync',
                 'ftruncate'):
        R[name] = getattr(os, name)
    R['flock'] = fcntl.flock
    for name in ('unlink', 'remove', 'mkdir', 'rmdir', 'truncate'):
        setattr(os, name, _path_op(name))
    for name in ('rename', 'replace', 'link'):
        setattr(os, name, _path_op(name, two=True))
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    os.open = sim_open_fd
    os.close = sim_close
    os.write = sim_write
    os.fsync = sim_fsync
    os.fdatasync = sim_fsync
    os.ftruncate = sim_ftruncate
    io.open = sim_io_open
    builtins.open = sim_io_open
    fcntl.flock = sim_flock
    import tempfile
    # tempfile binds nothing at import time beyond module objects, but its
    # default directory must not be probed during a run
    tempfile.gettempdir()
