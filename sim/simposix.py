"""The `posix` module of the simulated system: every call goes to the current
process of the current world."""

import collections, errno, os as real_os, posix as real_posix, stat, types
from errno import (EACCES, EAGAIN, EBADF, ECHILD, EEXIST, EINVAL, EISDIR, ELOOP, ENODATA, ENODEV,
                   ENOENT, ENOTDIR, ENOTSUP, ENOTTY, EPERM, EPIPE, ESPIPE, ESRCH, EXDEV)

from .fs import err
from .kernel import (G, FileDesc, HarnessError, NullDesc, Pipe, PipeR, PipeW, SimKilled,
                     SinkDesc, SourceDesc, subseed)

fsencode, fsdecode, fspath = real_os.fsencode, real_os.fsdecode, real_os.fspath

O_PATH = real_os.O_PATH


def perr(e, path=None, path2=None):
    msg = real_os.strerror(e)
    if path2 is not None:
        return OSError(e, msg, path, None, path2)
    if path is not None:
        return OSError(e, msg, path)
    return OSError(e, msg)


class _at:
    """Resolution base for a path argument."""
    __slots__ = ('p', 'raw', 'path', 'base', 'abs')
    def __init__(self, path, dir_fd=None):
        w = G.world
        p = self.p = w.current
        if p is None:
            raise HarnessError(f'path {path!r} used outside a process')
        self.raw = path
        b = fsencode(path)
        if b'\0' in b:
            raise ValueError('embedded null byte')
        self.path = b
        self.base = p.cwd
        bp = p.cwd_path
        if dir_fd is not None and not b.startswith(b'/'):
            d = p.desc(dir_fd)
            if d.kind != 'file':
                raise perr(ENOTDIR, path)
            self.base = d.inode
            bp = d.path
        if b.startswith(b'/'):
            self.abs = b
        else:
            self.abs = bp.rstrip(b'/') + b'/' + b

    def walk(self, **kw):
        p = self.p
        try:
            return p.fs.walk(self.path, self.base, cred=p if p.euid else None, **kw)
        except OSError as ex:
            raise perr(ex.errno, self.raw) from None


def _cred(p):
    return p if p.euid else None


def _enter(call, a=None, info=None):
    return G.world.enter(call, a.abs if a is not None else None, info)


def _stat_tuple(i, fs):
    def f(ns): return ns / 1e9
    size = i.size()
    return (i.mode, i.ino, i.dev if i.dev is not None else fs.dev, i.nlink, i.uid, i.gid, size,
            i.atime // 10**9, i.mtime // 10**9, i.ctime // 10**9,
            f(i.atime), f(i.mtime), f(i.ctime),
            i.atime, i.mtime, i.ctime, 4096, (size + 511) // 512, i.rdev)


def _mkstat(i, fs):
    return real_os.stat_result(_stat_tuple(i, fs))


def raw_stat(i, fs):
    return (i.mode, i.ino, i.dev if i.dev is not None else fs.dev, i.nlink, i.uid, i.gid,
            i.size(), i.atime, i.mtime, i.ctime, i.rdev)


class _Pseudo:
    """Inode stand-in for descriptors that are not files."""
    def __init__(self, mode, ino):
        self.mode = mode
        self.ino = ino
        self.dev = 13
        self.nlink = 1
        self.uid = self.gid = 0
        self.atime = self.mtime = self.ctime = 1_500_000_000 * 10**9
        self.rdev = 0
    def size(self): return 0


def fd_inode(p, fd):
    d = p.desc(fd)
    if d.kind == 'file':
        return d.inode
    if d.kind == 'null':
        return _Pseudo(stat.S_IFCHR | 0o666, 5)
    return _Pseudo(stat.S_IFIFO | 0o600, 1000 + id(d) % 7 * 0)


def want_fd(x):
    if isinstance(x, int):
        return x
    raise TypeError(f'an integer is required (got type {type(x).__name__})')


# ---------------------------------------------------------------- the calls

def stat_(path, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return fstat(path)
    a = _at(path, dir_fd)
    p = _enter('stat', a)
    return _mkstat(a.walk(follow=follow_symlinks), p.fs)

def lstat(path, *, dir_fd=None):
    return stat_(path, dir_fd=dir_fd, follow_symlinks=False)

def fstat(fd):
    p = G.world.enter('fstat')
    return _mkstat(fd_inode(p, fd), p.fs)

def do_open(a, flags, mode=0o777):
    p = a.p
    fs = p.fs
    acc = flags & real_os.O_ACCMODE
    raw = a.raw
    if flags & real_os.O_CREAT:
        d, name, i = a.walk(want_parent=True, follow=not flags & (real_os.O_NOFOLLOW | real_os.O_EXCL))
        if i is not None and flags & real_os.O_EXCL:
            raise perr(EEXIST, raw)
        if i is None:
            if a.path.endswith(b'/'):
                raise perr(EISDIR, raw)
            try:
                i = fs.create(d, name, stat.S_IFREG | (mode & ~p.umask & 0o7777), cred=_cred(p))
            except OSError as ex:
                raise perr(ex.errno, raw) from None
            created = True
        else:
            created = False
    else:
        i = a.walk(follow=not flags & real_os.O_NOFOLLOW)
        created = False
    if i.islnk() and not (flags & O_PATH):
        raise perr(ELOOP, raw)
    if flags & real_os.O_DIRECTORY and i.entries is None:
        raise perr(ENOTDIR, raw)
    if i.entries is not None and acc != real_os.O_RDONLY and not flags & O_PATH:
        raise perr(EISDIR, raw)
    if not created and not flags & O_PATH:
        want = {real_os.O_RDONLY: 4, real_os.O_WRONLY: 2}.get(acc, 6)
        try:
            fs.access(i, want, _cred(p))
        except OSError as ex:
            raise perr(ex.errno, raw) from None
    if flags & real_os.O_NOATIME and p.euid and p.euid != i.uid:
        raise perr(EPERM, raw)
    k = stat.S_IFMT(i.mode)
    if not flags & O_PATH:
        if k == stat.S_IFCHR and i.rdev == real_os.makedev(1, 3):
            return p.newfd(NullDesc())
        if k == stat.S_IFSOCK:
            raise perr(errno.ENXIO, raw)
        if k in (stat.S_IFCHR, stat.S_IFBLK):
            raise perr(errno.ENXIO, raw) # no such device
        if k == stat.S_IFIFO and not flags & real_os.O_NONBLOCK and acc != real_os.O_RDWR:
            G.world.block(p, lambda: False, on=f'open of fifo {a.abs!r}') # nothing has the other end
        if k not in (stat.S_IFREG, stat.S_IFDIR, stat.S_IFIFO):
            raise HarnessError(f'open of special file {a.abs!r}')
    if flags & real_os.O_TRUNC and acc != real_os.O_RDONLY and i.data is not None and len(i.data):
        fs.truncate(i, 0)
    return p.newfd(FileDesc(i, flags, a.abs, fs))

def open_(path, flags, mode=0o777, *, dir_fd=None):
    a = _at(path, dir_fd)
    call = 'open'
    if flags & real_os.O_CREAT:
        call = 'creat'
    _enter(call, a)
    return do_open(a, flags, mode)

def _file_call(call, fd, info=None):
    w = G.world
    p = w.current
    if p is None:
        raise HarnessError(call)
    e = p.fds.get(fd)
    w.enter(call, e[0].path if e is not None else None, info)
    return p, p.desc(fd)

def close(fd):
    p, d = _file_call('close', want_fd(fd))
    del p.fds[fd]
    d.decref()

def closerange(lo, hi):
    p = G.world.enter('closerange')
    for fd in sorted(p.fds):
        if lo <= fd < hi:
            p.fds.pop(fd)[0].decref()

def _short(p, n):
    if n > 1 and p.aux.pop('short', None):
        return 1 + G.world.rng_frag.randrange(n - 1)
    return n

def do_read(p, d, n):
    w = G.world
    if d.kind == 'sock':
        if d.r is None:
            return b''
        d = d.r
    k = d.kind
    if k == 'file':
        i = d.inode
        if i.entries is not None:
            raise perr(EISDIR)
        if d.flags & real_os.O_ACCMODE == real_os.O_WRONLY:
            raise perr(EBADF)
        if i.data is None:
            return b'' # a fifo without a writer
        n = _short(p, n)
        b = bytes(i.data[d.pos:d.pos + n])
        d.pos += len(b)
        if w.read_hook is not None:
            b = w.read_hook(p, d, b)
        return b
    if k == 'pipe':
        if not isinstance(d, PipeR):
            raise perr(EBADF)
        pi = d.pipe
        if not d.ready_r(w):
            if d.flags & real_os.O_NONBLOCK:
                raise perr(EAGAIN)
            w.block(p, lambda: d.ready_r(w), next_time=lambda: d.next_time(w),
                    on=f'read {pi.name}')
        if not pi.segs or pi.segs[0][0] > w.now:
            if pi.broken and pi.reset:
                raise perr(errno.ECONNRESET)
            return b''
        # available now
        avail = 0
        for t, b, o in pi.segs:
            if t > w.now:
                break
            avail += len(b) - o
            if avail >= n:
                break
        take = w.frag(_short(p, min(n, avail)))
        out = []
        need = take
        while need:
            seg = pi.segs[0]
            t, b, o = seg
            x = b[o:o + need]
            out.append(x)
            need -= len(x)
            if o + len(x) >= len(b):
                pi.segs.pop(0)
            else:
                seg[2] = o + len(x)
        pi.size -= take
        return b''.join(out)
    if k == 'source':
        if d.fail_at is not None and d.pos >= d.fail_at:
            raise perr(d.fail_errno)
        lim = len(d.data) if d.fail_at is None else min(len(d.data), d.fail_at)
        n = min(n, lim - d.pos)
        n = w.frag(_short(p, n)) if n > 0 else 0
        b = bytes(d.data[d.pos:d.pos + n])
        d.pos += n
        return b
    if k == 'null':
        return b''
    raise perr(EBADF)

def read(fd, n):
    p, d = _file_call('read', want_fd(fd), n)
    return do_read(p, d, n)

def readv(fd, bufs):
    views = [memoryview(b).cast('B') for b in bufs]
    data = read(fd, sum(len(v) for v in views))
    _scatter(views, data)
    return len(data)

def preadv(fd, bufs, off, flags=0):
    views = [memoryview(b).cast('B') for b in bufs]
    data = pread(fd, sum(len(v) for v in views), off)
    _scatter(views, data)
    return len(data)

def _scatter(views, data):
    for v in views:
        n = min(len(v), len(data))
        v[:n] = data[:n]
        data = data[n:]

def pread(fd, n, off):
    p, d = _file_call('read', fd, n)
    if d.kind != 'file':
        raise perr(ESPIPE)
    return bytes(d.inode.data[off:off + _short(p, n)])

def do_write(p, d, data):
    w = G.world
    if d.kind == 'sock':
        if d.w is None:
            raise perr(EPIPE)
        d = d.w
    data = bytes(data)
    n = len(data)
    k = d.kind
    if k == 'file':
        i = d.inode
        if d.flags & real_os.O_ACCMODE == real_os.O_RDONLY:
            raise perr(EBADF)
        n2 = _short(p, n)
        if n2 != n:
            data = data[:n2]
        if d.flags & real_os.O_APPEND:
            d.pos = len(i.data)
        r = p.fs.write(i, d.pos, data)
        d.pos += r
        return r
    if k == 'pipe':
        if not isinstance(d, PipeW):
            raise perr(EBADF)
        pi = d.pipe
        if not n:
            return 0
        n = _short(p, n) # (a signal)
        if n > 4096 and p.prog == b'bup' and w.config.get('short_writes') and w.rng_frag.random() < w.config['short_writes']:
            n = w.rng_frag.randrange(1, n)
        data = data[:n]
        if pi.alter is not None:
            data = pi.alter(data)
        done = 0
        while True:
            if pi.broken or pi.readers <= 0:
                if done:
                    return done
                raise perr(EPIPE)
            room = pi.capacity - pi.size
            if n <= 4096 and room < n: # small writes are atomic
                room = 0
            if room > 0:
                take = min(n - done, room)
                if n > 4096:
                    take = max(1, w.frag(take))
                piece = data[done:done + take]
                if pi.cut_after is not None and pi.total + take > pi.cut_after:
                    take = max(0, pi.cut_after - pi.total)
                    piece = piece[:take]
                if piece:
                    t = w.now
                    if pi.latency is not None:
                        t = max(pi.last_ready, t + pi.latency())
                    pi.last_ready = t
                    pi.segs.append([t, piece, 0])
                    pi.size += take
                    pi.total += take
                    if pi.log is not None:
                        pi.log.append((w.now, take))
                    if pi.record is not None:
                        pi.record.extend(piece)
                if pi.cut_after is not None and pi.total >= pi.cut_after:
                    pi.cut_after = None
                    if pi.on_cut is not None:
                        pi.on_cut(pi)
                done += take
                if done >= n:
                    return done
                continue
            if d.flags & real_os.O_NONBLOCK:
                if done:
                    return done
                raise perr(EAGAIN)
            need = n if n <= 4096 else 1
            w.block(p, lambda: pi.broken or pi.readers <= 0 or pi.capacity - pi.size >= need,
                    on=f'write {pi.name}')
    if k == 'sink':
        n = _short(p, n)
        if d.limit is not None and n:
            n = min(n, d.limit - len(d.buf))
            if n <= 0:
                d.limit_hit = True
                raise perr(d.limit_errno)
        d.buf += data[:n]
        return n
    if k == 'null':
        return n
    raise perr(EBADF)

def write(fd, data):
    p, d = _file_call('write', want_fd(fd), len(data))
    return do_write(p, d, data)

def writev(fd, bufs):
    data = b''.join(bytes(b) for b in bufs)
    p, d = _file_call('write', want_fd(fd), len(data))
    return do_write(p, d, data)

def pwrite(fd, data, off):
    p, d = _file_call('write', want_fd(fd), len(data))
    if d.kind != 'file':
        raise perr(ESPIPE)
    if d.flags & real_os.O_ACCMODE == real_os.O_RDONLY:
        raise perr(EBADF)
    data = bytes(data)
    return p.fs.write(d.inode, off, data[:_short(p, len(data))])

def pwritev(fd, bufs, off, flags=0):
    return pwrite(fd, b''.join(bytes(b) for b in bufs), off)

def posix_fadvise(fd, off, length, advice):
    G.world.current.desc(want_fd(fd))

def posix_fallocate(fd, off, length):
    p, d = _file_call('write', want_fd(fd), length)
    if d.kind != 'file':
        raise perr(ENODEV)
    if off + length > len(d.inode.data):
        p.fs.truncate(d.inode, off + length)

def lseek(fd, off, whence):
    p, d = _file_call('lseek', fd)
    if d.kind == 'null':
        return 0
    if d.kind != 'file':
        raise perr(ESPIPE)
    if whence == 0:
        n = off
    elif whence == 1:
        n = d.pos + off
    elif whence == 2:
        n = d.inode.size() + off
    else:
        raise HarnessError(f'lseek whence {whence}')
    if n < 0:
        raise perr(EINVAL)
    d.pos = n
    return n

def truncate(path, length):
    if isinstance(path, int):
        return ftruncate(path, length)
    a = _at(path)
    p = _enter('truncate', a)
    p.fs.truncate(a.walk(), length)

def ftruncate(fd, length):
    p, d = _file_call('truncate', fd)
    if d.kind != 'file' or d.inode.data is None:
        raise perr(EINVAL)
    if d.flags & real_os.O_ACCMODE == real_os.O_RDONLY:
        raise perr(EINVAL)
    p.fs.truncate(d.inode, length)

def _dosync(p, d):
    if d.kind != 'file':
        raise perr(EINVAL)
    w = G.world
    if p.host.lying_disk is not None and p.host.lying_disk(p, d):
        return
    if d.inode.entries is not None:
        p.fs.fsync_dir(d.inode, w.personality)
    else:
        p.fs.fsync_file(d.inode, w.personality)

def fsync(fd):
    if not isinstance(fd, int):
        fd = fd.fileno()
    p, d = _file_call('fsync', fd)
    _dosync(p, d)

def fdatasync(fd):
    fsync(fd)

def sync():
    p = G.world.enter('sync')
    p.fs.sync_all()

def dup(fd):
    p, d = _file_call('dup', fd)
    return p.newfd(d)

def dup2(fd, fd2, inheritable=True):
    p, d = _file_call('dup', fd)
    if fd == fd2:
        p.fds[fd][1] = inheritable or p.fds[fd][1]
        return fd2
    d.incref()
    if fd2 in p.fds:
        p.fds.pop(fd2)[0].decref()
    p.fds[fd2] = [d, inheritable]
    return fd2

def get_inheritable(fd):
    p = G.world.current
    p.desc(fd)
    return p.fds[fd][1]

def set_inheritable(fd, v):
    p = G.world.current
    p.desc(fd)
    p.fds[fd][1] = bool(v)

def get_blocking(fd):
    return not G.world.current.desc(fd).flags & real_os.O_NONBLOCK

def set_blocking(fd, v):
    d = G.world.current.desc(fd)
    if v:
        d.flags &= ~real_os.O_NONBLOCK
    else:
        d.flags |= real_os.O_NONBLOCK

def pipe():
    w = G.world
    p = w.enter('pipe')
    pi = Pipe(w.pipe_capacity, name=f'pipe{w.steps}')
    r, wr = PipeR(pi), PipeW(pi)
    return p.newfd(r), p.newfd(wr)

def pipe2(flags):
    r, w = pipe()
    return r, w

def isatty(fd):
    p = G.world.current
    e = p.fds.get(fd)
    return e is not None and e[0].isatty()

def get_terminal_size(fd=1):
    raise perr(ENOTTY)

# -- names

def _names(i):
    """Directory order is arbitrary but fixed, as with a hashed directory."""
    salt = G.world.dir_salt
    names = list(i.entries)
    if salt is not None:
        names.sort(key=lambda n: hash_name(salt, n))
    return names

def hash_name(salt, n):
    h = salt
    for c in n:
        h = (h * 1000003 ^ c) & 0xffffffffffff
    return (h * 2654435761) & 0xffffffffffff, n

def _dir_inode(path, call):
    p = G.world.current
    if isinstance(path, int):
        p, d = _file_call(call, path)
        i = d.inode if d.kind == 'file' else None
        if i is None or i.entries is None:
            raise perr(ENOTDIR)
        return p, i, '.', False, d.path
    a = _at(path if path is not None else '.')
    p = _enter(call, a)
    i = a.walk()
    if i.entries is None:
        raise perr(ENOTDIR, path)
    try:
        p.fs.access(i, 4, _cred(p))
    except OSError as ex:
        raise perr(ex.errno, path) from None
    return p, i, path if path is not None else '.', isinstance(fspath(path or '.'), bytes), a.abs

def listdir(path=None):
    p, i, _, isb, _ = _dir_inode(path, 'listdir')
    names = _names(i)
    return names if isb else [fsdecode(n) for n in names]

class DirEntry:
    __slots__ = ('name', 'path', '_i', '_fs', '_dir')
    def __init__(self, name, path, i, fs, d):
        self.name, self.path, self._i, self._fs, self._dir = name, path, i, fs, d
    def inode(self): return self._i.ino
    def is_symlink(self): return self._i.islnk()
    def _follow(self):
        if self._i.islnk():
            try:
                return self._fs.walk(self._i.target, self._dir)
            except OSError:
                return None
        return self._i
    def is_dir(self, *, follow_symlinks=True):
        i = self._follow() if follow_symlinks else self._i
        return i is not None and i.entries is not None
    def is_file(self, *, follow_symlinks=True):
        i = self._follow() if follow_symlinks else self._i
        return i is not None and i.data is not None
    def is_junction(self): return False
    def stat(self, *, follow_symlinks=True):
        p = G.world.enter('stat')
        i = self._follow() if follow_symlinks else self._i
        if i is None:
            raise perr(ENOENT, self.path)
        return _mkstat(i, self._fs)
    def __fspath__(self): return self.path
    def __repr__(self): return f'<DirEntry {self.name!r}>'

class _Scan:
    def __init__(self, it): self.it = iter(it)
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def close(self): self.it = iter(())
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

def scandir(path=None):
    p, i, base, isb, _ = _dir_inode(path, 'listdir')
    out = []
    fd = isinstance(path, int)
    b = b'' if fd else fsencode(base)
    for n in _names(i):
        full = n if fd else (b + n if b.endswith(b'/') else b + b'/' + n)
        c = i.entries[n]
        if isb:
            out.append(DirEntry(n, full, c, p.fs, i))
        else:
            out.append(DirEntry(fsdecode(n), fsdecode(full), c, p.fs, i))
    return _Scan(out)

def _wrap(raw, fn, *a, **k):
    try:
        return fn(*a, **k)
    except OSError as ex:
        raise perr(ex.errno, raw) from None

def mkdir(path, mode=0o777, *, dir_fd=None):
    a = _at(path, dir_fd)
    p = _enter('mkdir', a)
    a.path = a.path.rstrip(b'/') or b'/'
    d, name, i = a.walk(want_parent=True, follow=False)
    if i is not None:
        raise perr(EEXIST, path)
    _wrap(path, p.fs.create, d, name, stat.S_IFDIR | (mode & ~p.umask & 0o1777), cred=_cred(p))

def rmdir(path, *, dir_fd=None):
    a = _at(path, dir_fd)
    p = _enter('rmdir', a)
    a.path = a.path.rstrip(b'/') or b'/'
    d, name, i = a.walk(want_parent=True, follow=False)
    if i is None:
        raise perr(ENOENT, path)
    _wrap(path, p.fs.rmdir, d, name, i, cred=_cred(p))

def unlink(path, *, dir_fd=None):
    a = _at(path, dir_fd)
    p = _enter('unlink', a)
    d, name, i = a.walk(want_parent=True, follow=False)
    if i is None:
        raise perr(ENOENT, path)
    _wrap(path, p.fs.unlink, d, name, i, cred=_cred(p))

remove = unlink

def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    a, b = _at(src, src_dir_fd), _at(dst, dst_dir_fd)
    p = _enter('rename', a, b.abs)
    sp = a.path.endswith(b'/')
    a.path = a.path.rstrip(b'/') or b'/'
    b.path = b.path.rstrip(b'/') or b'/'
    sd, sn, si = a.walk(want_parent=True, follow=False)
    if si is None:
        raise perr(ENOENT, src, dst)
    dd, dn, di = b.walk(want_parent=True, follow=False)
    _wrap(src, p.fs.rename, sd, sn, si, dd, dn, di, cred=_cred(p))

replace = rename

def link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    a, b = _at(src, src_dir_fd), _at(dst, dst_dir_fd)
    p = _enter('link', b)
    si = a.walk(follow=False)
    dd, dn, di = b.walk(want_parent=True, follow=False)
    if di is not None:
        raise perr(EEXIST, src, dst)
    _wrap(src, p.fs.link, si, dd, dn, cred=_cred(p))

def symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    b = _at(dst, dir_fd)
    p = _enter('symlink', b)
    dd, dn, di = b.walk(want_parent=True, follow=False)
    if di is not None:
        raise perr(EEXIST, src, dst)
    i = _wrap(dst, p.fs.create, dd, dn, stat.S_IFLNK | 0o777, cred=_cred(p), target=fsencode(src))

def readlink(path, *, dir_fd=None):
    a = _at(path, dir_fd)
    _enter('readlink', a)
    i = a.walk(follow=False)
    if i.target is None:
        raise perr(EINVAL, path)
    return i.target if isinstance(fspath(path), bytes) else fsdecode(i.target)

def mknod(path, mode=0o600, device=0, *, dir_fd=None):
    a = _at(path, dir_fd)
    p = _enter('mknod', a)
    d, n, i = a.walk(want_parent=True, follow=False)
    if i is not None:
        raise perr(EEXIST, path)
    if not stat.S_IFMT(mode):
        mode |= stat.S_IFREG
    if stat.S_IFMT(mode) in (stat.S_IFCHR, stat.S_IFBLK) and p.euid:
        raise perr(EPERM, path)
    _wrap(path, p.fs.create, d, n, stat.S_IFMT(mode) | (mode & ~p.umask & 0o7777),
          cred=_cred(p), rdev=device)

def mkfifo(path, mode=0o666, *, dir_fd=None):
    mknod(path, stat.S_IFIFO | (mode & 0o7777), dir_fd=dir_fd)

def bind_unix(path):
    a = _at(path)
    p = _enter('mknod', a)
    d, n, i = a.walk(want_parent=True, follow=False)
    if i is not None:
        raise perr(errno.EADDRINUSE)
    _wrap(path, p.fs.create, d, n, stat.S_IFSOCK | (0o777 & ~p.umask), cred=_cred(p))

def _set_attr(i, p, **kw):
    for k, v in kw.items():
        setattr(i, k, v)
    i.ctime = p.fs.stamp()

def _owner(i, p, path):
    if p.euid and p.euid != i.uid:
        raise perr(EPERM, path)

def chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return fchmod(path, mode)
    if not follow_symlinks:
        raise NotImplementedError('chmod: follow_symlinks unavailable on this platform')
    a = _at(path, dir_fd)
    p = _enter('chmod', a)
    i = a.walk()
    _owner(i, p, path)
    _set_attr(i, p, mode=stat.S_IFMT(i.mode) | (mode & 0o7777))

def fchmod(fd, mode):
    p, d = _file_call('chmod', fd)
    _owner(d.inode, p, None)
    _set_attr(d.inode, p, mode=stat.S_IFMT(d.inode.mode) | (mode & 0o7777))

def _chown(i, p, uid, gid, path):
    if p.euid:
        if p.euid != i.uid or (uid not in (-1, i.uid)) or \
           (gid not in (-1, i.gid, p.egid) and gid not in p.groups):
            raise perr(EPERM, path)
    if uid != -1:
        i.uid = uid
    if gid != -1:
        i.gid = gid
    if not i.islnk() and not i.isdir():
        i.mode &= ~0o6000 # as the kernel does
    i.ctime = p.fs.stamp()

def chown(path, uid, gid, *, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        return fchown(path, uid, gid)
    a = _at(path, dir_fd)
    p = _enter('chown', a)
    _chown(a.walk(follow=follow_symlinks), p, uid, gid, path)

def lchown(path, uid, gid):
    chown(path, uid, gid, follow_symlinks=False)

def fchown(fd, uid, gid):
    p, d = _file_call('chown', fd)
    _chown(d.inode, p, uid, gid, None)

def utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if isinstance(path, int):
        p, d = _file_call('utime', path)
        i = d.inode
    else:
        a = _at(path, dir_fd)
        p = _enter('utime', a)
        i = a.walk(follow=follow_symlinks)
    _owner(i, p, path)
    if ns is not None:
        at, mt = ns
    elif times is not None:
        at, mt = int(times[0] * 10**9), int(times[1] * 10**9)
    else:
        at = mt = p.fs.stamp()
    g = p.fs.gran
    _set_attr(i, p, atime=at - at % g, mtime=mt - mt % g)

def access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    a = _at(path, dir_fd)
    p = _enter('access', a)
    try:
        i = a.walk(follow=follow_symlinks)
        p.fs.access(i, mode & 7, _cred(p))
    except OSError:
        return False
    if mode & 1 and p.euid == 0 and i.data is not None and not i.mode & 0o111:
        return False
    return True

# -- extended attributes

def _xa(path, follow):
    if isinstance(path, int):
        p, d = _file_call('xattr', path)
        return p, d.inode
    a = _at(path)
    p = _enter('xattr', a)
    return p, a.walk(follow=follow)

def listxattr(path=None, *, follow_symlinks=True):
    p, i = _xa(path, follow_symlinks)
    return [fsdecode(x) for x in (i.xattrs or {}) if x[0]] # (not the ACL)

def getxattr(path, attribute, *, follow_symlinks=True):
    p, i = _xa(path, follow_symlinks)
    try:
        return (i.xattrs or {})[fsencode(attribute)]
    except KeyError:
        raise perr(ENODATA, path) from None

def setxattr(path, attribute, value, flags=0, *, follow_symlinks=True):
    p, i = _xa(path, follow_symlinks)
    if i.xattrs is None:
        i.xattrs = {}
    i.xattrs[fsencode(attribute)] = bytes(value)
    i.ctime = p.fs.stamp()

def removexattr(path, attribute, *, follow_symlinks=True):
    p, i = _xa(path, follow_symlinks)
    try:
        del i.xattrs[fsencode(attribute)]
    except (KeyError, TypeError):
        raise perr(ENODATA, path) from None
    i.ctime = p.fs.stamp()

# -- process state

def getcwdb():
    return G.world.current.cwd_path

def getcwd():
    return fsdecode(getcwdb())

def _chdir(p, i, path):
    i.opens += 1
    p.cwd.opens -= 1
    p.cwd = i
    # canonical path, from the tree
    parts = []
    c = i
    while c is not p.fs.root:
        for n, x in c.parent.entries.items():
            if x is c:
                parts.append(n)
                break
        else:
            break
        c = c.parent
    p.cwd_path = b'/' + b'/'.join(reversed(parts))

def chdir(path):
    if isinstance(path, int):
        return fchdir(path)
    a = _at(path)
    p = _enter('chdir', a)
    i = a.walk()
    if i.entries is None:
        raise perr(ENOTDIR, path)
    _wrap(path, p.fs.access, i, 1, _cred(p))
    _chdir(p, i, a.abs)

def fchdir(fd):
    p, d = _file_call('chdir', fd)
    if d.kind != 'file' or d.inode.entries is None:
        raise perr(ENOTDIR)
    _chdir(p, d.inode, d.path)

def umask(m):
    p = G.world.current
    old, p.umask = p.umask, m & 0o777
    return old

def getpid(): return G.world.current.pid
def getppid():
    p = G.world.current.parent
    return p.pid if p is not None else 1
def getuid(): return G.world.current.uid
def geteuid(): return G.world.current.euid
def getgid(): return G.world.current.gid
def getegid(): return G.world.current.egid
def getgroups(): return list(G.world.current.groups)
def setsid(): return G.world.current.pid
def setpgid(a, b): return None
def getpgrp(): return G.world.current.pid

def urandom(n):
    return G.world.rng_rand.randbytes(n)

def getrandom(n, flags=0):
    return urandom(n)

def sysconf(name):
    if name in ('SC_ARG_MAX', 0):
        return G.world.config.get('arg_max', 2097152)
    if name in ('SC_PAGE_SIZE', 'SC_PAGESIZE'):
        return 4096
    return real_os.sysconf(name)

def uname():
    return real_os.uname_result(('Linux', G.world.current.host.name, '6.0', '1', 'x86_64'))

def cpu_count(): return 4

def statvfs(path):
    if not isinstance(path, int):
        _enter('stat', _at(path))
    return real_os.statvfs_result((4096, 4096, 10**8, 10**8, 10**8, 10**8, 10**8, 10**8, 0, 255))

def fstatvfs(fd):
    return statvfs(fd)

def getpgid(pid): return pid or G.world.current.pid
def getsid(pid): return pid or G.world.current.pid
def getresuid(): p = G.world.current; return p.uid, p.euid, p.euid
def getresgid(): p = G.world.current; return p.gid, p.gid, p.gid
def getlogin(): raise perr(ENOTTY)
def sched_yield(): G.world.enter('yield')
def sched_getaffinity(pid): return {0}
def getpriority(which, who): return 0
def setpriority(which, who, prio): pass
def nice(n): return 0
def getloadavg(): return 0.0, 0.0, 0.0
def times(): return real_os.times_result((0.0, 0.0, 0.0, 0.0, G.world.now / 1e9))
def wait3(options): pid, st = waitpid(-1, options); return pid, st, None
def wait4(pid, options): pid, st = waitpid(pid, options); return pid, st, None

def putenv(k, v): pass
def unsetenv(k): pass

def _exit(code):
    p = G.world.current
    p.aux['_exit'] = code
    G.world.enter('_exit')
    p.finish((code & 255) << 8)
    raise SimKilled()

def execve(path, argv, env):
    w = G.world
    path = fsencode(path)
    p = w.enter('exec', path)
    argv = [fsencode(x) for x in argv]
    base = path.rsplit(b'/', 1)[-1]
    if base not in w.programs:
        raise perr(ENOENT, path)
    p.exec_([path] + argv[1:], {fsencode(k): fsencode(v) for k, v in env.items()})

def execv(path, argv):
    execve(path, argv, G.world.current.environ)

# fork: Python can't copy a running interpreter, so the child is a new process that runs the same
# program from its start, but with each call up to the fork returning what it returned to the parent
# (without any effect); the descriptors are those at the time of the fork.

def recorded(name, fn):
    def call(*a, **k):
        w = G.world
        p = w.current if w is not None else None
        if p is None or p.rec is None or p.aux.get('nested'):
            return fn(*a, **k)
        if p.replay:
            n, ok, v = p.replay.popleft()
            if n != name:
                raise HarnessError(f'fork: the child calls {name} where the parent called {n}')
            if not p.replay:
                p.replay = None
            if ok:
                return v
            raise v
        p.aux['nested'] = True
        try:
            try:
                v = fn(*a, **k)
            finally:
                p.aux['nested'] = False
        except (OSError, ValueError, TypeError) as ex:
            p.rec.append((name, False, ex))
            raise
        p.rec.append((name, True, v))
        return v
    call.__name__ = getattr(fn, '__name__', name)
    return call

def fork():
    w = G.world
    p = w.enter('fork', None, p_argv0())
    if p.rec is None:
        raise HarnessError('fork')
    c = w.spawn(p.host, p.argv, env=p.environ, cwd=p.cwd, cwd_path=p.cwd_path,
                fds={}, parent=p, uid=p.uid, gid=p.gid)
    for fd, (d, inh) in p.fds.items():
        c.fds[fd] = [d.incref(), inh]
    c.umask = p.umask
    c.rec = list(p.rec)
    c.replay = collections.deque(p.rec + [('fork', True, 0)])
    return c.pid

def p_argv0():
    return G.world.current.argv[0]

def kill(pid, sig):
    w = G.world
    p = w.enter('kill')
    for q in w.procs:
        if q.pid == pid and q.state != 'reaped':
            if sig == 0 or q.dead:
                return
            if sig == 2:
                q.sigint = True
                return
            w.kill(q, sig)
            return
    raise perr(ESRCH)

def killpg(pgid, sig):
    kill(pgid, sig)

def waitpid(pid, options):
    w = G.world
    p = w.enter('waitpid')
    def cands():
        return [c for c in p.children if c.parent is p and c.state != 'reaped'
                and (pid == -1 or c.pid == pid)]
    if not cands():
        raise perr(ECHILD)
    def done():
        return next((c for c in cands() if c.state == 'zombie'), None)
    c = done()
    if c is None:
        if options & real_os.WNOHANG:
            return 0, 0
        w.block(p, lambda: done() is not None, on=f'waitpid {pid}')
        c = done()
    c.state = 'reaped'
    c.parent = None
    p.children.remove(c)
    return c.pid, c.status

def wait():
    return waitpid(-1, 0)

def fork_exec(args, executable_list, close_fds, pass_fds, cwd, env, p2cread, p2cwrite,
              c2pread, c2pwrite, errread, errwrite, errpipe_read, errpipe_write,
              restore_signals, call_setsid, pgid, gid, gids, uid, umask_, preexec_fn, *rest):
    w = G.world
    argv = [fsencode(x) for x in args]
    p = w.enter('fork', None, argv[0])
    exe = fsencode(executable_list[0]) if len(executable_list) == 1 else argv[0]
    base = exe.rsplit(b'/', 1)[-1]
    cwd_i, cwd_p = p.cwd, p.cwd_path
    if cwd is not None:
        a = _at(cwd)
        try:
            cwd_i = a.walk(must_dir=True)
            cwd_p = a.abs
        except OSError as ex:
            p.desc(errpipe_write).pipe.segs.append([w.now, b'OSError:%x:noexec:chdir' % ex.errno, 0])
            cwd_i = None
    fail = cwd_i is None
    if not fail and base not in w.programs:
        p.desc(errpipe_write).pipe.segs.append([w.now, b'OSError:%x:' % ENOENT, 0])
        fail = True
    if env is not None:
        e = {}
        for kv in env:
            k, _, v = bytes(kv).partition(b'=')
            e[k] = v
    else:
        e = dict(p.environ)
    fds = {}
    src = {0: p2cread, 1: c2pwrite, 2: errwrite}
    for n, s in src.items():
        if s is None or s == -1:
            s = n
        if s in p.fds:
            fds[n] = p.fds[s][0]
    for fd, (d, inh) in p.fds.items():
        if fd > 2:
            if fd in pass_fds and fd != errpipe_write:
                fds[fd] = d
            elif not close_fds and inh:
                fds[fd] = d
    if fail:
        c = w.spawn(p.host, [b'false'], env=e, cwd=p.cwd, fds={}, parent=p)
        return c.pid
    host = p.host
    c = w.spawn(host, [exe] + argv[1:], env=e, cwd=cwd_i, cwd_path=cwd_p, fds=fds, parent=p,
                uid=p.uid, gid=p.gid)
    c.umask = p.umask if umask_ < 0 else umask_
    if preexec_fn is not None:
        saved, w.current = w.current, c
        try:
            preexec_fn()
        finally:
            w.current = saved
    return c.pid


# ---------------------------------------------------------------- select

def _fileno(x):
    return x if isinstance(x, int) else x.fileno()

def select(rl, wl, xl, timeout=None):
    w = G.world
    p = w.enter('select')
    rs = [(x, p.desc(_fileno(x))) for x in rl]
    ws = [(x, p.desc(_fileno(x))) for x in wl]
    def ready():
        return any(d.ready_r(w) for _, d in rs) or any(d.ready_w(w) for _, d in ws)
    def nt():
        ts = [t for t in (d.next_time(w) for _, d in rs) if t is not None and t > w.now]
        return min(ts) if ts else None
    if not ready() and (timeout is None or timeout > 0):
        w.block(p, ready, until=None if timeout is None else w.now + int(timeout * 10**9),
                next_time=nt, on=f'select {[_fileno(x) for x in rl]} {[_fileno(x) for x in wl]}')
    return ([x for x, d in rs if d.ready_r(w)], [x for x, d in ws if d.ready_w(w)], [])


# ---------------------------------------------------------------- module

RECORDED = ('pwrite stat_ lstat fstat open_ close closerange read pread write writev lseek truncate ftruncate fsync fdatasync dup dup2'
            ' pipe pipe2 isatty get_terminal_size listdir mkdir rmdir unlink rename replace link symlink readlink chmod chown utime access getcwd getcwdb'
            ' chdir umask getpid getppid getuid geteuid getgid getegid urandom fork kill waitpid wait fork_exec select remove').split()

for _n in RECORDED:
    globals()[_n] = recorded(_n.rstrip('_'), globals()[_n])


# what this system does not have (the standard library and bup have fallbacks)
ABSENT = set('''sendfile copy_file_range posix_spawn posix_spawnp splice pidfd_open lchmod lchflags
 chflags memfd_create eventfd register_at_fork statx'''.split())
ready = []

def build():
    m = types.ModuleType('posix')
    for k, v in vars(real_posix).items():
        if isinstance(v, (int, str, tuple, list, dict)) and not k.startswith('__') and k != 'environ':
            setattr(m, k, v)
    for k in ('error', 'fspath', 'strerror', 'major', 'minor', 'makedev', 'stat_result',
              'statvfs_result', 'times_result', 'uname_result', 'terminal_size', 'WCOREDUMP',
              'WIFCONTINUED', 'WIFSTOPPED', 'WIFSIGNALED', 'WIFEXITED', 'WEXITSTATUS', 'WTERMSIG',
              'WSTOPSIG', 'waitstatus_to_exitcode', '_path_normpath'):
        setattr(m, k, getattr(real_posix, k))
    m.environ = {}
    me = globals()
    m.stat = stat_
    m.open = open_
    for k in ('lstat fstat close closerange read pread write writev lseek truncate ftruncate fsync'
              ' fdatasync sync dup dup2 get_inheritable set_inheritable get_blocking set_blocking'
              ' pipe pipe2 isatty get_terminal_size listdir scandir DirEntry mkdir rmdir unlink'
              ' remove rename replace link symlink readlink mknod mkfifo chmod fchmod chown lchown'
              ' fchown utime access listxattr getxattr setxattr removexattr getcwd getcwdb chdir'
              ' fchdir umask getpid getppid getuid geteuid getgid getegid getgroups setsid setpgid'
              ' getpgrp urandom sysconf uname cpu_count putenv unsetenv _exit execv execve fork'
              ' kill killpg waitpid wait statvfs fstatvfs readv preadv pwrite pwritev posix_fadvise'
              ' posix_fallocate getpgid getsid getresuid getresgid getlogin sched_yield'
              ' sched_getaffinity getpriority setpriority nice getloadavg times wait3 wait4').split():
        setattr(m, k, me[k])
    m._have_functions = [x for x in real_posix._have_functions
                         if x not in ('HAVE_POSIX_SPAWN', 'HAVE_LCHMOD')]
    def __getattr__(name):
        if hasattr(real_posix, name) and name not in ABSENT and not name.startswith('_') and ready:
            raise HarnessError(f'not simulated: posix.{name}')
        raise AttributeError(name)
    m.__getattr__ = __getattr__
    return m
