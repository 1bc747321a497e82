"""The file-system seam.

Every open/read/write/truncate/close and every path operation on files below
the simulation root goes through `Disk.sys`, which logs the call, is a yield
point, and lets the run's fault plan act: error returns, legal short reads and
short writes, an exhausted quota, a process kill with a torn write, or an
action of "somebody else" (another program replacing, truncating, deleting a
file).  Data live in real files below a scratch directory, so the bytes the
code sees are real.

A kill raises SimCrash and freezes the disk for that process: whatever the
unwinding code still tries to write is lost, as it would be after SIGKILL.
"""
import builtins
import errno
import io
import itertools
import mmap
import os
import shutil
import sys
import tempfile
from collections import Counter

from simsched import SimCrash

_real_open = io.open
_RealFileIO = io.FileIO
_os = {n: getattr(os, n) for n in
       ('remove', 'unlink', 'rename', 'replace', 'stat', 'lstat', 'listdir', 'scandir',
        'mkdir', 'rmdir', 'truncate', 'link', 'symlink', 'open', 'write', 'close', 'fsync',
        'ftruncate', 'read', 'access', 'utime')}

DISK = None      # active Disk or None
MUTATIONS = {'create', 'write', 'truncate', 'remove', 'rename', 'mkdir', 'link'}


KINDS = ('crash', 'interrupt', 'env', 'quota', 'short_read', 'short_write', 'close_error',
         'eio', 'enoent', 'emfile', 'eacces', 'enospc', 'estale', 'enomem', 'edquot')


def known(f):
    if f['kind'] not in KINDS:
        raise SystemExit('unknown fault kind %r' % (f['kind'],))
    return dict(f)


class Disk:
    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.counts = Counter()
        self.n = 0                 # all syscalls of the run
        self.op_counts = Counter() # per class since begin_op
        self.plan = []             # faults armed for the current operation
        self.dead = False          # process killed
        self.epoch = 0             # incarnation of the process after kills
        self.quota = None
        self.fds = {}
        self.trace = None
        self.outside = []          # attempts to write outside the simulated world
        self.tasks = {}            # task id -> (faults, counts) of its current operation
        self.short = 0.0           # fraction of reads and writes that are cut short
        import random
        self.rng_short = random.Random('short-%s' % getattr(sim, 'run_seed', 0))

    # ------------------------------------------------------------------
    def rel(self, p):
        return os.path.relpath(p, self.root)

    def mine(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def begin_op(self, plan=()):
        self.op_counts = Counter()
        self.plan = [known(f) for f in plan]

    def arm_task(self, tid, plan):
        self.tasks[tid] = ([known(f) for f in plan], Counter())

    def disarm_task(self, tid):
        plan, _ = self.tasks.pop(tid)
        return [f for f in plan if f.get('fired')]

    def end_op(self):
        unfired = [f for f in self.plan if not f.get('fired')]
        self.plan = []
        self.quota = None
        return unfired

    def fire(self, f):
        f['fired'] = True
        self.sim.stats['fault:' + f['kind']] += 1
        self.sim.note('FAULT', f['kind'], f.get('k'))

    def sys(self, cls, path, size=None):
        """One system call of class cls. Returns a directive or None."""
        self.sim.io_point(('io', cls))
        self.n += 1
        if self.dead:
            raise SimCrash('disk frozen')
        k = self.op_counts[cls]
        self.op_counts[cls] += 1
        self.op_counts['any'] += 1
        mk = None
        if cls in MUTATIONS:
            mk = self.op_counts['mutation']
            self.op_counts['mutation'] += 1
        self.counts[cls] += 1
        self.sim.note('sys', self.sim.current.id if self.sim.current else -1, cls,
                      self.rel(path) if path else None, size)
        directive = None
        plan = self.plan
        tp = self.tasks.get(self.sim.current.id) if self.sim.current else None
        if tp is not None:
            plan, oc = tp
            k = oc[cls]
            oc[cls] += 1
            oc['any'] += 1
            if cls in MUTATIONS:
                mk = oc['mutation']
                oc['mutation'] += 1
        else:
            oc = self.op_counts
        for f in plan:
            if f.get('fired'):
                continue
            at = f['at']
            hit = False
            if at == 'mutation':
                hit = mk is not None and mk == f['k']
            elif at == 'any':
                hit = oc['any'] - 1 == f['k']
            elif at == cls:
                hit = f['k'] == k
            if not hit:
                continue
            if f.get('file') and not (path or '').endswith(f['file']):
                continue
            f['hit'] = (cls, path)
            d = self.act(f, cls, path, size)
            if d is not None:
                directive = d
        if directive is None and self.short and cls in ('read', 'write') and (size or 0) > 1 \
                and self.rng_short.random() < self.short:
            self.sim.stats['fault:short_' + cls] += 1
            directive = ('short', self.rng_short.random())
            self.sim.note('SHORT', cls)
        return directive

    def act(self, f, cls, path, size):
        kind = f['kind']
        if kind == 'crash':
            self.fire(f)
            if cls == 'write' and size:
                return ('torn', int(size * f.get('frac', 0.5)))
            self.dead = True
            raise SimCrash('killed before %s' % cls)
        if kind == 'interrupt':
            if cls in ('close', 'close_w'):
                return None         # could be a finaliser, which cannot raise
            f['fired'] = True
            self.sim.stats['fault:keyboard_interrupt'] += 1
            self.sim.note('kbd', cls, f.get('k'))
            raise KeyboardInterrupt('simulated')
        if kind == 'env':
            self.fire(f)
            f['action']()
            return None
        if kind == 'quota':
            self.fire(f)
            self.quota = f.get('bytes', 0)
            return None
        if kind == 'short_read':
            if cls == 'read':
                self.fire(f)
                return ('short', f.get('frac', 0.5))
            return None
        if kind == 'short_write':
            if cls == 'write':
                self.fire(f)
                return ('short', f.get('frac', 0.5))
            return None
        self.fire(f)
        if kind == 'close_error':
            return ('close_error', f.get('lose'))
        e = {'eio': errno.EIO, 'enoent': errno.ENOENT, 'emfile': errno.EMFILE,
             'eacces': errno.EACCES, 'enospc': errno.ENOSPC, 'estale': errno.ESTALE,
             'enomem': errno.ENOMEM, 'edquot': errno.EDQUOT}[kind]
        raise OSError(e, os.strerror(e), path)

    # what is open right now, as the kernel sees it -----------------------
    def open_fds(self):
        out = []
        for fd in sorted(int(x) for x in _os['listdir']('/proc/self/fd')):
            try:
                p = os.readlink('/proc/self/fd/%d' % fd)
            except OSError:
                continue
            if p.startswith(self.root + os.sep):
                out.append(self.rel(p))
        return sorted(out)

    def maps(self):
        out = set()
        with _real_open('/proc/self/maps') as fp:
            for line in fp:
                i = line.find('/')
                if i >= 0 and line[i:].startswith(self.root + os.sep):
                    out.add(self.rel(line[i:].rstrip('\n')))
        return sorted(out)


class SimFileIO(_RealFileIO):
    """Raw file whose every system call is simulated."""

    def __init__(self, file, mode='r', closefd=True, opener=None):
        d = DISK
        self._d = d
        self._wrote = False
        self._epoch = d.epoch
        self._size0 = 0
        if isinstance(file, int):
            self._p = d.fds.get(file)
            super().__init__(file, mode, closefd)
            return
        p = d.mine(file)
        self._p = p
        try:
            if 'w' not in mode:
                self._size0 = _os['stat'](p).st_size
        except OSError:
            pass
        if opener is None:
            creating = ('w' in mode or 'x' in mode or
                        ('a' in mode and not os.path.exists(p)))
            d.sys('open', p)
            if creating:
                d.sys('create', p)
            super().__init__(file, mode, closefd)
        else:
            super().__init__(file, mode, closefd, opener)
            try:
                self._p = os.readlink('/proc/self/fd/%d' % self.fileno())
            except OSError:
                pass

    def readinto(self, b):
        d = self._d
        m = memoryview(b).cast('B')
        r = d.sys('read', self._p, len(m))
        if r is not None and r[0] == 'short':
            n = max(1, int(len(m) * r[1]))
            return super().readinto(m[:n])
        return super().readinto(m)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        d = self._d
        r = d.sys('read', self._p, size)
        if r is not None and r[0] == 'short':
            size = max(1, int(size * r[1]))
        return super().read(size)

    def readall(self):
        out = []
        while True:
            b = self.read(65536)
            if not b:
                return b''.join(out)
            out.append(b)

    def write(self, b):
        d = self._d
        m = memoryview(b).cast('B')
        if self._epoch != d.epoch:
            return len(m)            # a buffer of a killed process: lost
        r = d.sys('write', self._p, len(m))
        self._wrote = True
        if r is not None and r[0] == 'torn':
            n = r[1]
            if n > 0:
                super().write(m[:n])
            d.dead = True
            raise SimCrash('killed inside write')
        if d.quota is not None:
            if d.quota <= 0 and len(m) > 0:
                d.sim.stats['fault:enospc_returned'] += 1
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self._p)
            n = min(len(m), d.quota)
            d.quota -= n
            return super().write(m[:n])
        if r is not None and r[0] == 'short':
            n = max(1, int(len(m) * r[1]))
            return super().write(m[:n])
        return super().write(m)

    def truncate(self, size=None):
        if self._epoch != self._d.epoch:
            return size
        self._d.sys('truncate', self._p, size)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        d = self._d
        try:
            d.fds.pop(self.fileno(), None)
        except (OSError, ValueError):
            pass
        if d.dead or DISK is not d or self._epoch != d.epoch:
            super().close()
            return
        try:
            r = d.sys('close_w' if self._wrote else 'close', self._p)
        except BaseException:
            # the descriptor is gone whatever close() reports
            super().close()
            raise
        super().close()
        if r is not None and r[0] == 'close_error':
            if r[1] is not None:
                # what this handle wrote did not all reach the disk
                n = _os['stat'](self._p).st_size
                if n > self._size0:
                    _os['truncate'](self._p, self._size0 + int((n - self._size0) * r[1]))
            raise OSError(errno.EIO, os.strerror(errno.EIO), self._p)


def outside(path):
    """Nothing outside the scratch directory is written to during a run."""
    d = DISK
    if d is None or d.mine(path) is not None:
        return
    p = os.path.abspath(os.fsdecode(os.fspath(path)))
    if p.startswith(('/dev/', '/proc/')):
        return
    d.outside.append(p)
    raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), p)


class _FileIOMeta(type):
    def __call__(cls, file, mode='r', closefd=True, opener=None):
        if not isinstance(file, int) and set(mode) & set('wax+'):
            outside(file)
        if _intercepted(file):
            return SimFileIO(file, mode, closefd, opener)
        return _RealFileIO(file, mode, closefd, opener)

    def __instancecheck__(cls, x):
        return isinstance(x, _RealFileIO)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealFileIO)


class FileIOShim(metaclass=_FileIOMeta):
    pass


def _intercepted(file):
    d = DISK
    if d is None:
        return False
    if isinstance(file, int):
        return file in d.fds
    return d.mine(file) is not None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if not _intercepted(file):
        if not isinstance(file, int) and set(mode) & set('wax+'):
            outside(file)
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError('invalid mode: %r' % mode)
    text = 'b' not in modes
    updating = '+' in modes
    raw = SimFileIO(file, ''.join(c for c in mode if c not in 'bt'), closefd, opener)
    try:
        line_buffering = buffering == 1
        if buffering == 0:
            if not text:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if updating:
            buf = io.BufferedRandom(raw, size)
        elif modes & set('wax'):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


def _path1(name, cls):
    real = _os[name]

    def f(path, *a, **k):
        d = DISK
        if d is not None and not isinstance(path, int):
            p = d.mine(path)
            if p is not None:
                d.sys(cls, p)
            elif cls in MUTATIONS:
                outside(path)
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _path2(name, cls):
    real = _os[name]

    def f(src, dst, *a, **k):
        d = DISK
        if d is not None:
            p = d.mine(dst)
            if p is not None:
                d.sys(cls, p)
            else:
                outside(dst)
        return real(src, dst, *a, **k)
    f.__name__ = name
    return f


def _listdir(path='.'):
    d = DISK
    if d is not None and not isinstance(path, int) and d.mine(path) is not None:
        d.sys('listdir', d.mine(path))
        out = sorted(_os['listdir'](path))
        d.sim.rng_dir.shuffle(out)
        return out
    return _os['listdir'](path)


class _Scan:
    def __init__(self, items):
        self.it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _scandir(path='.'):
    d = DISK
    if d is not None and not isinstance(path, int) and d.mine(path) is not None:
        d.sys('listdir', d.mine(path))
        with _os['scandir'](path) as it:
            out = sorted(it, key=lambda e: e.name)
        d.sim.rng_dir.shuffle(out)
        return _Scan(out)
    return _os['scandir'](path)


def _open(path, flags, mode=0o777, *, dir_fd=None):
    d = DISK
    p = d.mine(path) if (d is not None and dir_fd is None) else None
    if p is None:
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            outside(path)
        return _os['open'](path, flags, mode, dir_fd=dir_fd)
    d.sys('open', p)
    if flags & (os.O_CREAT | os.O_TRUNC):
        d.sys('create', p)
    fd = _os['open'](path, flags, mode)
    d.fds[fd] = p
    return fd


def _close(fd):
    d = DISK
    if d is not None and fd in d.fds:
        del d.fds[fd]
    return _os['close'](fd)


def _write(fd, b):
    d = DISK
    if d is not None and fd in d.fds:
        m = memoryview(b).cast('B')
        r = d.sys('write', d.fds[fd], len(m))
        if r is not None and r[0] == 'torn':
            _os['write'](fd, m[:r[1]])
            d.dead = True
            raise SimCrash('killed inside write')
        if d.quota is not None:
            if d.quota <= 0 and len(m):
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), d.fds[fd])
            n = min(len(m), d.quota)
            d.quota -= n
            return _os['write'](fd, m[:n])
    return _os['write'](fd, b)


class _Names:
    def __init__(self):
        self.n = itertools.count()

    def __iter__(self):
        return self

    def __next__(self):
        return 'sim%06d' % next(self.n)


def install():
    builtins.open = sim_open
    io.open = sim_open
    io.FileIO = FileIOShim
    for n, c in (('remove', 'remove'), ('unlink', 'remove'), ('stat', 'stat'), ('lstat', 'stat'),
                 ('mkdir', 'mkdir'), ('rmdir', 'remove'), ('truncate', 'truncate'),
                 ('access', 'stat')):
        setattr(os, n, _path1(n, c))
    for n, c in (('rename', 'rename'), ('replace', 'rename'), ('link', 'link'),
                 ('symlink', 'link')):
        setattr(os, n, _path2(n, c))
    os.listdir = _listdir
    os.scandir = _scandir
    os.open = _open
    os.close = _close
    os.write = _write
    shutil._USE_CP_SENDFILE = False
    import astropy.io.fits.util as fu
    import astropy.io.fits.file as ff
    import astropy.io.fits.hdu.hdulist as fh

    def raw_of(f):
        while not isinstance(f, _RealFileIO):
            n = getattr(f, 'buffer', None) or getattr(f, 'raw', None)
            if n is None:
                return None
            f = n
        return f

    def isfile(f):
        return raw_of(f) is not None

    def isfile_data(f):
        # SimFileIO data must not bypass the seam through numpy's fromfile/tofile
        r = raw_of(f)
        return r is not None and not isinstance(r, SimFileIO)
    fu.isfile = isfile_data
    # memory mapping stays what it is in production
    ff.isfile = isfile
    fh.isfile = isfile
    ff._File._mmap_available


def reset_tempnames(root):
    tempfile._name_sequence = _Names()
    tempfile.tempdir = os.path.join(root, 'tmp')
