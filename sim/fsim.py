"""Simulated disk: every file system call on a path below the scratch root is an
event (yield + fault point + trace entry) and is then applied to the real tmpfs,
whose state is what survives a simulated kill.

Calls on paths outside the scratch root pass through when they only read; calls
that would modify anything there are refused and recorded as escapes.
"""
import _io
import builtins
import errno
import hashlib
import io
import os
import shutil
import stat as statmod

from . import core
from .prims import replace_everywhere

R = {}      # real functions by name
_NAMES = ['open', 'read', 'write', 'close', 'fsync', 'fdatasync', 'ftruncate', 'truncate', 'lseek', 'pread',
          'pwrite', 'remove', 'unlink', 'rename', 'replace', 'mkdir', 'rmdir', 'symlink', 'link', 'utime',
          'chmod', 'chown', 'lchown', 'fchmod', 'fchown', 'mkfifo', 'mknod', 'stat', 'lstat', 'access', 'readlink', 'listdir', 'scandir',
          'statvfs', 'sendfile', 'copy_file_range', 'posix_fallocate', 'dup', 'dup2', 'fdopen', 'chdir',
          'setxattr', 'removexattr', 'getxattr', 'listxattr', 'sync', 'kill', 'killpg', 'fork', 'execv', 'execve',
          'posix_spawn', 'system', 'writev', 'readv']
for _n in _NAMES:
    if hasattr(os, _n):
        R[_n] = getattr(os, _n)
_real_open = builtins.open
_real_FileIO = io.FileIO
_realpath = os.path.realpath

FDS = {}    # fd -> label of files opened through os.open below the root

# errno actions a fault may ask for
ERRNOS = {n: getattr(errno, n) for n in ('ENOSPC', 'EIO', 'EROFS', 'EMFILE', 'EACCES', 'EDQUOT', 'EINTR')}


def _sim():
    s = core.CURRENT
    return s if s is not None and s.cur is not None else None


def _abs(path, dir_fd=None):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if dir_fd is not None and not p.startswith('/'):
        base = FDS.get(dir_fd)
        if base is None:
            return None
        p = os.path.join(core.CURRENT.root, base, p)
    if not p.startswith('/'):
        p = os.path.join(core.CURRENT.cwd, p)
    return os.path.normpath(p)


def _inside(sim, p):
    return p == sim.root or p.startswith(sim.root + '/')


def _label(sim, path, dir_fd=None):
    """Scratch-relative label of a path, None if it is outside"""
    if isinstance(path, int):
        return FDS.get(path)
    p = _abs(path, dir_fd)
    if p is None or not _inside(sim, p):
        return None
    return sim.rel(p)


def _refuse(sim, op, path):
    sim.escapes.append(f"{op} {path}")
    sim.note(f"escape {op} {path}")
    raise PermissionError(errno.EACCES, f"simulation: {op} outside of the scratch directory refused", str(path))


def _check_contained(sim, op, path, dir_fd=None, follow=True):
    """Refuse modifications that leave the scratch root, also through symlinks"""
    p = _abs(path, dir_fd)
    if p is None or not _inside(sim, p):
        if p == '/dev/null':
            return
        _refuse(sim, op, path)
    target = p if follow else os.path.dirname(p)
    sim.cur.depth += 1
    try:
        r = _realpath(target)
    finally:
        sim.cur.depth -= 1
    if not _inside(sim, r):
        _refuse(sim, op, path)


def _raise_fault(sim, f, path):
    code = ERRNOS.get(f.action)
    if code is None:
        return
    raise OSError(code, os.strerror(code), str(path))


def _full(sim, g):
    """True if the disk of this group is currently full"""
    n = sim.disk_full.get(g)
    if n is None:
        return False
    if n > 0:
        n -= 1
        if n == 0:
            del sim.disk_full[g]
        else:
            sim.disk_full[g] = n
    return True


def _space_fault(sim, f, path):
    """Apply full-disk state to an operation that needs space"""
    g = sim.cur.group
    if f is not None and f.action == 'diskfull':
        sim.disk_full[g] = f.arg or -1
    if _full(sim, g):
        sim.hit('disk-full-refusal')
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(path))
    if f is not None:
        _raise_fault(sim, f, path)


def _settime(sim, fd_or_path):
    t = sim.time()
    try:
        R['utime'](fd_or_path, (t, t))
    except OSError:
        pass


class SimFileIO(_real_FileIO):
    """Raw file on the simulated disk; sits under the real buffered and text layers"""

    def __init__(self, path, mode, label, sim, opener=None, closefd=True):
        self._label = label
        self._sim = sim
        self._w = any(c in mode for c in 'wax+')
        self._dirty = False
        super().__init__(path, mode, closefd, opener)
        if opener is not None:
            self._label = FDS.get(self.fileno(), label)
        if self._w and not statmod.S_ISREG(os.fstat(self.fileno()).st_mode):
            self._w = False
        if self._w and any(c in mode for c in 'wx'):
            _settime(sim, self.fileno())

    def _read_fault(self):
        sim = _sim()
        if sim is None:
            return
        f = sim.event('read', self._label)
        if f is not None:
            _raise_fault(sim, f, self._label)

    def readinto(self, b):
        self._read_fault()
        sim = _sim()
        if sim is not None and len(b) > 16 and sim.short_reads:
            n = 1 + sim.iorng.randrange(len(b))
            with memoryview(b) as m:
                return super().readinto(m[:n])
        return super().readinto(b)

    def read(self, size=-1):
        self._read_fault()
        sim = _sim()
        if sim is not None and size > 16 and sim.short_reads:
            # only code that reads without buffer gets here
            size = 1 + sim.iorng.randrange(size)
        return super().read(size)

    def readall(self):
        self._read_fault()
        return super().readall()

    def write(self, b):
        sim = _sim()
        if sim is None:
            return super().write(b)
        return write_event(sim, self._label, b, super().write, self.fileno())

    def truncate(self, size=None):
        sim = _sim()
        if sim is not None:
            f = sim.event('write', self._label)
            _space_fault(sim, f, self._label)
        return super().truncate(size)

    def close(self):
        if self.closed:
            return
        sim = _sim()
        f = None
        try:
            FDS.pop(self.fileno(), None)
        except (OSError, ValueError):
            pass
        if sim is not None and self._w:
            try:
                f = sim.event('close', self._label)
            except BaseException:
                super().close()
                raise
        super().close()
        if f is not None:
            _raise_fault(sim, f, self._label)


def write_event(sim, label, b, do, fd):
    f = sim.event('write', label, info='' if sim.trace is None else f" {len(b)}B")
    g = sim.cur.group
    if f is not None:
        m = memoryview(b).cast('B')
        n = len(m)
        if f.action == 'torn':          # killed after part of the data reached the file
            k = min(n - 1, int(n * f.arg)) if n else 0
            if k > 0:
                do(m[:k])
            sim.kill(g)
        if f.action == 'torn-full':     # killed right after the data reached the file
            do(m)
            sim.kill(g)
        if f.action == 'short':
            k = max(1, min(n, int(n * f.arg)))
            r = do(m[:k])
            _settime(sim, fd)
            return r
        if f.action == 'diskfull':
            sim.disk_full[g] = f.arg or -1
            k = int(n * 0.5)
            if k > 0:                   # room for a part of it: short write, then ENOSPC
                r = do(m[:k])
                _settime(sim, fd)
                return r
    if g in sim.disk_full and _full(sim, g):
        sim.hit('disk-full-refusal')
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), label)
    if f is not None:
        _raise_fault(sim, f, label)
    r = do(b)
    _settime(sim, fd)
    return r


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim = _sim()
    if sim is None or not isinstance(mode, str):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    if isinstance(file, int):
        label = FDS.get(file)
        if label is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        try:
            label = _label(sim, file)
        except TypeError:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if label is None:
            if writing:
                if _abs(file) != '/dev/null':
                    _refuse(sim, 'open', file)
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)

    # same checks as io.open()
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    binary = 'b' in modes
    if 't' in modes and binary:
        raise ValueError("can't have text and binary mode at once")
    if len(modes & set('xrwa')) != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if binary and errors is not None:
        raise ValueError("binary mode doesn't take an errors argument")
    if binary and newline is not None:
        raise ValueError("binary mode doesn't take a newline argument")

    rawmode = ''.join(c for c in 'xrwa+' if c in modes)
    if not isinstance(file, int) and opener is None:
        if writing:
            _check_contained(sim, 'open', file)
            p = _abs(file)
            f = sim.event('open-w', label)
            _space_fault_open(sim, f, label, p)
        else:
            f = sim.event('open-r', label)
            if f is not None:
                _raise_fault(sim, f, label)
    raw = SimFileIO(file, rawmode, label, sim, opener=opener, closefd=closefd)
    result = raw
    try:
        line_buffering = False
        if buffering == 1 and not binary:
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = sim.bufsize if writing else 8192
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if '+' in modes:
            buf = io.BufferedRandom(raw, buffering)
        elif writing:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        result = buf
        if binary:
            return result
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        try:
            text._CHUNK_SIZE = max(64, sim.bufsize)
        except (AttributeError, ValueError):
            pass
        result = text
        text.mode = mode
        return result
    except BaseException:
        result.close()
        raise


def _space_fault_open(sim, f, label, p):
    """Creating a file needs space; opening an existing one does not"""
    g = sim.cur.group
    if f is not None and f.action == 'diskfull':
        sim.disk_full[g] = f.arg or -1
    if g in sim.disk_full:
        try:
            R['lstat'](p)
        except OSError:
            if _full(sim, g):
                sim.hit('disk-full-refusal')
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), label)
    if f is not None:
        _raise_fault(sim, f, label)


# ---- os functions ----------------------------------------------------

def os_open(path, flags, mode=0o777, *, dir_fd=None):
    sim = _sim()
    if sim is None:
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    label = _label(sim, path, dir_fd)
    writing = (flags & os.O_ACCMODE) != os.O_RDONLY or flags & (os.O_CREAT | os.O_TRUNC)
    if label is None:
        if writing:
            _refuse(sim, 'open', path)
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    if writing:
        _check_contained(sim, 'open', path, dir_fd)
        f = sim.event('open-w', label)
        _space_fault_open(sim, f, label, _abs(path, dir_fd))
    else:
        f = sim.event('open-r', label)
        if f is not None:
            _raise_fault(sim, f, label)
    fd = R['open'](path, flags, mode, dir_fd=dir_fd)
    FDS[fd] = label
    if writing:
        _settime(sim, fd)
    return fd


def os_write(fd, data):
    sim = _sim()
    label = FDS.get(fd)
    if sim is None or label is None:
        return R['write'](fd, data)
    return write_event(sim, label, data, lambda b: R['write'](fd, b), fd)


def os_pwrite(fd, data, offset):
    sim = _sim()
    label = FDS.get(fd)
    if sim is None or label is None:
        return R['pwrite'](fd, data, offset)
    return write_event(sim, label, data, lambda b: R['pwrite'](fd, b, offset), fd)


def os_read(fd, n):
    sim = _sim()
    label = FDS.get(fd)
    if sim is not None and label is not None:
        f = sim.event('read', label)
        if f is not None:
            _raise_fault(sim, f, label)
    return R['read'](fd, n)


def os_close(fd):
    sim = _sim()
    label = FDS.pop(fd, None)
    if sim is None or label is None:
        return R['close'](fd)
    f = None
    try:
        f = sim.event('close', label)
    finally:
        R['close'](fd)
    if f is not None:
        _raise_fault(sim, f, label)


def os_fsync(fd):
    sim = _sim()
    if sim is not None:
        label = FDS.get(fd if isinstance(fd, int) else fd.fileno(), '?')
        f = sim.event('fsync', label)
        if f is not None:
            _raise_fault(sim, f, label)
        return None
    return R['fsync'](fd)


def os_ftruncate(fd, length):
    sim = _sim()
    label = FDS.get(fd)
    if sim is not None and label is not None:
        f = sim.event('write', label)
        _space_fault(sim, f, label)
    return R['ftruncate'](fd, length)


def _simple(op, kind, needs_space=False, follow=False, dirfd=True):
    real = R[op]

    def wrapper(path, *args, **kw):
        sim = _sim()
        if sim is None:
            return real(path, *args, **kw)
        if isinstance(path, int):
            label = FDS.get(path)
            if label is None:
                return real(path, *args, **kw)
        else:
            dfd = kw.get('dir_fd') if dirfd else None
            label = _label(sim, path, dfd)
            if label is None:
                _refuse(sim, op, path)
            _check_contained(sim, op, path, dfd, follow=follow)
        f = sim.event(kind, label)
        if needs_space:
            _space_fault(sim, f, label)
        elif f is not None:
            _raise_fault(sim, f, label)
        return real(path, *args, **kw)
    wrapper.__name__ = op
    return wrapper


def _unlinker(op):
    real = R[op]

    def wrapper(path, *, dir_fd=None):
        sim = _sim()
        if sim is None:
            return real(path, dir_fd=dir_fd)
        label = _label(sim, path, dir_fd)
        if label is None:
            _refuse(sim, op, path)
        _check_contained(sim, op, path, dir_fd, follow=False)
        f = sim.event('remove', label)
        if f is not None:
            _raise_fault(sim, f, label)
        r = real(path, dir_fd=dir_fd)
        return r
    wrapper.__name__ = op
    return wrapper


def _two(op, kind, space):
    real = R[op]

    def wrapper(src, dst, *args, **kw):
        sim = _sim()
        if sim is None:
            return real(src, dst, *args, **kw)
        dfd = kw.get('dst_dir_fd')
        if op == 'symlink':
            dfd = kw.get('dir_fd')
        label = _label(sim, dst, dfd)
        if label is None:
            _refuse(sim, op, dst)
        _check_contained(sim, op, dst, dfd, follow=False)
        if op != 'symlink':
            sdfd = kw.get('src_dir_fd')
            if _label(sim, src, sdfd) is None:
                _refuse(sim, op, src)
            _check_contained(sim, op, src, sdfd, follow=False)
        f = sim.event(kind, label)
        if space:
            _space_fault(sim, f, label)
        elif f is not None:
            _raise_fault(sim, f, label)
        return real(src, dst, *args, **kw)
    wrapper.__name__ = op
    return wrapper


_real_isatty = os.isatty


def os_isatty(fd):
    sim = _sim()
    if sim is not None and fd in (0, 1, 2):
        return bool(sim.cfg.get('tty'))
    return _real_isatty(fd)


def os_utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    sim = _sim()
    if sim is None:
        if ns is not None:
            return R['utime'](path, ns=ns, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
        return R['utime'](path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if not isinstance(path, int):
        label = _label(sim, path, dir_fd)
        if label is None:
            _refuse(sim, 'utime', path)
        _check_contained(sim, 'utime', path, dir_fd, follow=follow_symlinks)
        f = sim.event('utime', label)
        if f is not None:
            _raise_fault(sim, f, label)
    if times is None and ns is None:
        t = sim.time()
        times = (t, t)
    if ns is not None:
        return R['utime'](path, ns=ns, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    return R['utime'](path, times, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def _query(op):
    real = R[op]

    def wrapper(path='.', *args, **kw):
        sim = _sim()
        if sim is None or isinstance(path, int):
            return real(path, *args, **kw)
        if len(sim.tasks) > 1 and not sim.cur.depth:
            try:
                label = _label(sim, path, kw.get('dir_fd'))
            except TypeError:
                label = None
            if label is not None:
                sim.event(op, label, faultable=False)
        return real(path, *args, **kw)
    wrapper.__name__ = op
    return wrapper


def _order_key(sim, name):
    if isinstance(name, bytes):
        name = os.fsdecode(name)
    return hashlib.blake2b(name.encode('utf-8', 'surrogateescape'), digest_size=8,
                           key=sim.dir_key).digest()


def os_listdir(path='.'):
    sim = _sim()
    if sim is None:
        return R['listdir'](path)
    label = _label(sim, path)
    if label is None:
        return sorted(R['listdir'](path))
    f = sim.event('listdir', label)
    if f is not None:
        _raise_fault(sim, f, label)
    names = R['listdir'](path)
    names.sort(key=lambda n: _order_key(sim, n))
    return names


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def close(self):
        self._it = iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def os_scandir(path='.'):
    sim = _sim()
    if sim is None:
        return R['scandir'](path)
    label = _label(sim, path)
    if label is not None:
        f = sim.event('listdir', label)
        if f is not None:
            _raise_fault(sim, f, label)
    with R['scandir'](path) as it:
        entries = list(it)
    entries.sort(key=lambda e: _order_key(sim, e.name))
    return SimScandir(entries)


def _forbidden(op):
    def wrapper(*a, **k):
        sim = _sim()
        if sim is None:
            return R[op](*a, **k)
        sim.escapes.append(f"{op} {a!r}"[:200])
        raise PermissionError(errno.EPERM, f"simulation: {op} refused")
    wrapper.__name__ = op
    return wrapper


def os_chdir(path):
    sim = _sim()
    if sim is None:
        return R['chdir'](path)
    label = _label(sim, path)
    if label is None:
        _refuse(sim, 'chdir', path)
    r = R['chdir'](path)
    sim.cwd = os.path.join(sim.root, label)
    return r


def install():
    m = {
        builtins.open: sim_open,
        os.open: os_open, os.read: os_read, os.write: os_write, os.close: os_close,
        os.fsync: os_fsync, os.fdatasync: os_fsync, os.ftruncate: os_ftruncate, os.pwrite: os_pwrite,
        os.remove: _unlinker('remove'), os.unlink: _unlinker('unlink'),
        os.rename: _two('rename', 'rename', False), os.replace: _two('replace', 'rename', False),
        os.symlink: _two('symlink', 'symlink', True), os.link: _two('link', 'symlink', True),
        os.mkdir: _simple('mkdir', 'mkdir', True), os.rmdir: _simple('rmdir', 'rmdir'),
        os.chmod: _simple('chmod', 'chmod', follow=True), os.truncate: _simple('truncate', 'write', follow=True),
        os.utime: os_utime, os.isatty: os_isatty,
        os.stat: _query('stat'), os.lstat: _query('lstat'), os.readlink: _query('readlink'),
        os.access: _query('access'),
        os.listdir: os_listdir, os.scandir: os_scandir, os.chdir: os_chdir,
    }
    for op in ('kill', 'killpg', 'fork', 'execv', 'execve', 'posix_spawn', 'system', 'chown', 'lchown', 'mkfifo',
               'mknod', 'setxattr', 'removexattr', 'sendfile', 'copy_file_range'):
        if op in R:
            m[getattr(os, op)] = _forbidden(op)
    replace_everywhere(m)
    shutil._use_fd_functions = False
    shutil.rmtree.avoids_symlink_attacks = False
    shutil._USE_CP_SENDFILE = False
    # shutil.copystat copies xattrs when the platform has them
    shutil._copyxattr = lambda *a, **k: None
