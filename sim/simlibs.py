"""Standard-library surface seen by the code under test.

Modules that are pure Python over system calls (os, posixpath, glob, shutil,
tempfile, subprocess, selectors) run their real source on the simulated posix
module; the few that are C code with operating-system effects (io files, mmap,
select, time, random, signal, fcntl, socket, sqlite3) have small stand-ins.
Everything else is the real module.
"""

import builtins as real_builtins
import errno, functools, importlib, importlib.util, io as real_io, mmap as real_mmap, os as real_os
import random as real_random, signal as real_signal, sqlite3 as real_sqlite3, stat
import socket as real_socket, fcntl as real_fcntl, resource as real_resource
import sys as real_sys, time as real_time, traceback as real_traceback, types, uuid as real_uuid
import platform as real_platform, calendar
from collections.abc import MutableMapping

from . import simposix
from .kernel import G, HarnessError, ListenDesc, Pipe, SimKilled, SockDesc, subrng
from .simposix import perr

P = simposix.build()
_code_cache = {}

STD = {} # facade modules by full name


def cur():
    p = G.world.current if G.world is not None else None
    if p is None:
        raise HarnessError('library call outside a process')
    return p


# ---------------------------------------------------------------- io

class SimFileIO(real_io.RawIOBase):
    """Raw file over the simulated posix (cf. _pyio.FileIO)."""

    _fd = -1
    def __init__(self, file, mode='r', closefd=True, opener=None):
        self._owner = cur()
        self._closefd = closefd
        self.name = file
        m = mode.replace('b', '').replace('t', '')
        self._creating = 'x' in m
        self._r = 'r' in m or '+' in m
        self._w = 'w' in m or 'a' in m or 'x' in m or '+' in m
        self._app = 'a' in m
        if '+' in m:
            flags = real_os.O_RDWR
        elif self._w:
            flags = real_os.O_WRONLY
        else:
            flags = real_os.O_RDONLY
        if 'w' in m:
            flags |= real_os.O_CREAT | real_os.O_TRUNC
        if 'x' in m:
            flags |= real_os.O_CREAT | real_os.O_EXCL
        if 'a' in m:
            flags |= real_os.O_CREAT | real_os.O_APPEND
        self.mode = ('xb' if 'x' in m else 'ab' if 'a' in m else
                     ('rb+' if self._w else 'rb') if self._r else 'wb')
        if isinstance(file, int):
            if file < 0:
                raise ValueError('negative file descriptor')
            self._fd = file
            simposix.fstat(file)
        else:
            if not closefd:
                raise ValueError('Cannot use closefd=False with file name')
            flags |= real_os.O_CLOEXEC
            if opener is None:
                fd = simposix.open_(file, flags, 0o666)
            else:
                fd = opener(file, flags)
                if not isinstance(fd, int):
                    raise TypeError('expected integer from opener')
                if fd < 0:
                    raise OSError('Negative file descriptor')
            self._fd = fd
            st = simposix.fstat(fd)
            if stat.S_ISDIR(st.st_mode):
                simposix.close(fd)
                self._fd = -1
                raise perr(errno.EISDIR, file)
        self._blksize = 4096
        if self._app:
            simposix.lseek(self._fd, 0, 2)

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return self._fd

    def fileno(self): return self._chk()
    def readable(self): self._chk(); return self._r
    def writable(self): self._chk(); return self._w
    def seekable(self):
        fd = self._chk()
        if not hasattr(self, '_seekable'):
            try:
                simposix.lseek(fd, 0, 1)
                self._seekable = True
            except OSError:
                self._seekable = False
        return self._seekable
    def isatty(self): return simposix.isatty(self._chk())
    @property
    def closefd(self): return self._closefd

    def readinto(self, b):
        fd = self._chk()
        if not self._r:
            raise real_io.UnsupportedOperation('File not open for reading')
        m = memoryview(b).cast('B')
        try:
            data = simposix.read(fd, len(m))
        except OSError as ex:
            if ex.errno == errno.EAGAIN:
                return None
            raise
        m[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        fd = self._chk()
        if not self._r:
            raise real_io.UnsupportedOperation('File not open for reading')
        if size is None or size < 0:
            return self.readall()
        try:
            return simposix.read(fd, size)
        except OSError as ex:
            if ex.errno == errno.EAGAIN:
                return None
            raise

    def readall(self):
        fd = self._chk()
        size = 65536
        d = cur().fds.get(fd)
        if d is not None and d[0].kind == 'file':
            size = max(8192, len(d[0].inode.data or b'') - d[0].pos + 1)
        out = []
        while True:
            b = simposix.read(fd, size)
            if not b:
                return b''.join(out)
            out.append(b)

    def write(self, b):
        fd = self._chk()
        if not self._w:
            raise real_io.UnsupportedOperation('File not open for writing')
        try:
            return simposix.write(fd, memoryview(b).cast('B') if len(memoryview(b)) else b'')
        except OSError as ex:
            if ex.errno == errno.EAGAIN:
                return None
            raise

    def seek(self, pos, whence=0): return simposix.lseek(self._chk(), pos, whence)
    def tell(self): return simposix.lseek(self._chk(), 0, 1)
    def truncate(self, size=None):
        fd = self._chk()
        if size is None:
            size = self.tell()
        simposix.ftruncate(fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            w = G.world
            if self._closefd and self._fd >= 0 and w is not None and w.current is self._owner \
               and not self._owner.dead and (self._fd in self._owner.fds if not self._owner.replay else
                                                  self._owner.replay[0][0] == 'close'):
                simposix.close(self._fd)
        finally:
            super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if not isinstance(file, int):
        file = real_os.fspath(file)
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError('invalid mode: %r' % mode)
    creating, reading, writing, appending = ('x' in modes, 'r' in modes, 'w' in modes, 'a' in modes)
    updating, text, binary = '+' in modes, 't' in modes, 'b' in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    raw = SimFileIO(file, mode.replace('t', '').replace('b', ''), closefd, opener)
    result = raw
    try:
        line_buffering = False
        if buffering == 1 or buffering < 0 and raw.isatty():
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = raw._blksize if raw._blksize > 1 else real_io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buffer = real_io.BufferedRandom(raw, buffering)
        elif creating or writing or appending:
            buffer = real_io.BufferedWriter(raw, buffering)
        else:
            buffer = real_io.BufferedReader(raw, buffering)
        result = buffer
        if binary:
            return result
        t = real_io.TextIOWrapper(buffer, encoding or 'utf-8', errors, newline, line_buffering)
        result = t
        t.mode = mode
        return result
    except BaseException:
        result.close()
        raise


def _mkio():
    m = types.ModuleType('io')
    for k in dir(real_io):
        if not k.startswith('__'):
            setattr(m, k, getattr(real_io, k))
    m.open = m.open_code = sim_open
    m.FileIO = SimFileIO
    return m


# ---------------------------------------------------------------- mmap

class SimMmap:
    def __new__(cls, fileno, length, flags=real_mmap.MAP_SHARED,
                prot=real_mmap.PROT_READ | real_mmap.PROT_WRITE, access=0, offset=0):
        w = G.world
        p = w.current
        e = p.fds.get(fileno)
        w.enter('mmap', e[0].path if e else None)
        d = p.desc(fileno)
        if d.kind != 'file' or d.inode.data is None:
            raise perr(errno.ENODEV)
        if access:
            raise HarnessError('mmap access')
        i = d.inode
        if offset:
            raise HarnessError('mmap offset')
        if length == 0:
            length = len(i.data)
            if not length:
                raise ValueError('cannot mmap an empty file')
        if length > len(i.data):
            raise ValueError('mmap length is greater than file size')
        acc = d.flags & real_os.O_ACCMODE
        if acc == real_os.O_WRONLY:
            raise perr(errno.EACCES)
        if prot & real_mmap.PROT_WRITE and flags & real_mmap.MAP_SHARED and acc != real_os.O_RDWR:
            raise perr(errno.EACCES)
        self = object.__new__(cls)
        self._p = p
        self._len = length
        self._path = d.path
        self._writable = bool(prot & real_mmap.PROT_WRITE)
        self._inode = i
        self._private = bytearray(i.data[:length]) \
            if flags & real_mmap.MAP_PRIVATE and self._writable else None
        self._fs = p.fs
        self._shut = False
        self._pos = 0
        i.opens += 1
        return self

    def _data(self):
        if self._shut:
            raise ValueError('mmap closed or invalid')
        if self._p.dead:
            raise SimKilled()
        if self._private is not None:
            return self._private
        d = self._inode.data
        if len(d) < self._len:
            room = -(-len(d) // 4096) * 4096
            if room < self._len:
                w = G.world
                w.count('sigbus')
                w.kill(self._p, 7)
            return bytearray(bytes(d) + bytes(self._len - len(d)))
        return d

    def __len__(self):
        if self._shut:
            raise ValueError('mmap closed or invalid')
        return self._len
    def size(self): return self._inode.size()
    def __getitem__(self, k):
        d = self._data()
        if isinstance(k, slice):
            a, b, s = k.indices(self._len)
            return bytes(d[a:b:s]) if s != 1 else bytes(d[a:b]) if b > a else b''
        if k < 0:
            k += self._len
        if not 0 <= k < self._len:
            raise IndexError('mmap index out of range')
        return d[k]
    def __setitem__(self, k, v):
        if not self._writable:
            raise TypeError("mmap can't modify a readonly memory map.")
        d = self._data()
        if isinstance(k, slice):
            a, b, s = k.indices(self._len)
            if len(v) != len(range(a, b, s)):
                raise IndexError('mmap slice assignment is wrong size')
            d[a:b:s] = v
        else:
            if k < 0:
                k += self._len
            if not 0 <= k < self._len:
                raise IndexError('mmap assignment index out of range')
            d[k] = v
    def __buffer__(self, flags):
        d = self._data()
        m = memoryview(d)[:self._len]
        if not self._writable:
            if flags & 1:
                raise BufferError('Object is not writable.')
            m = m.toreadonly()
        return m
    def find(self, sub, start=None, end=None):
        d = self._data()
        return d.find(sub, self._pos if start is None else start, self._len if end is None else end)
    def read(self, n=None):
        if n is None or n < 0:
            n = self._len - self._pos
        b = self[self._pos:self._pos + n]
        self._pos += len(b)
        return b
    def write(self, b):
        self[self._pos:self._pos + len(b)] = b
        self._pos += len(b)
        return len(b)
    def seek(self, pos, whence=0):
        self._pos = pos + (0, self._pos, self._len)[whence]
    def tell(self): return self._pos
    def flush(self, *a):
        w = G.world
        w.enter('msync', self._path)
        if self._private is None:
            p = self._p
            if p.host.lying_disk is None:
                self._fs.fsync_file(self._inode, w.personality)
    def madvise(self, *a): pass
    def close(self):
        if not self._shut:
            self._shut = True
            self._inode.opens -= 1
            self._fs.maybe_free(self._inode)
    @property
    def closed(self): return self._shut
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __iter__(self): return iter(self[:])


def _mkmmap():
    m = types.ModuleType('mmap')
    for k in dir(real_mmap):
        if k.isupper() or k.startswith(('MAP', 'PROT', 'ACCESS', 'PAGESIZE', 'MADV')):
            setattr(m, k, getattr(real_mmap, k))
    m.mmap = SimMmap
    m.error = OSError
    return m


# ---------------------------------------------------------------- time, random, signal ...

def in_zone(z, fn, *a):
    old = real_os.environ.get('TZ')
    real_os.environ['TZ'] = real_os.fsdecode(z)
    real_time.tzset()
    try:
        return fn(*a)
    finally:
        if old is None:
            del real_os.environ['TZ']
        else:
            real_os.environ['TZ'] = old
        real_time.tzset()


def _mktime():
    m = types.ModuleType('time')
    def wall():
        w = G.world
        p = w.current
        w.now += 1000
        if w.time_hook is not None:
            w.time_hook(w, p)
        return p.host.wall_ns()
    wall = simposix.recorded('wall', wall)
    m.time_ns = wall
    m.time = lambda: wall() / 1e9
    def mono():
        G.world.now += 1000
        return G.world.now
    mono = simposix.recorded('mono', mono)
    m.monotonic_ns = m.perf_counter_ns = mono
    m.monotonic = m.perf_counter = m.process_time = m.thread_time = lambda: mono() / 1e9
    m.clock_gettime = lambda c: m.time() if c == 0 else m.monotonic()
    def sleep(s):
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        w = G.world
        p = w.enter('sleep', None, s)
        w.slept = getattr(w, 'slept', 0) + s
        w.block(p, None, until=w.now + int(s * 10**9), on=f'sleep {s}')
    m.sleep = sleep
    m.gmtime = lambda s=None: real_time.gmtime(m.time() if s is None else s)
    # TZ: UTC, or a POSIX time zone rule like CET-1CEST,M3.5.0,M10.5.0/3
    def zone():
        return cur().environ.get(b'TZ', b'UTC')
    def localtime(s=None):
        s = m.time() if s is None else s
        z = zone()
        if z == b'UTC':
            return real_time.gmtime(s)
        return in_zone(z, real_time.localtime, s)
    m.localtime = localtime
    m.mktime = lambda t: float(calendar.timegm(t)) if zone() == b'UTC' else in_zone(zone(), real_time.mktime, t)
    m.strftime = lambda f, t=None: in_zone(zone(), real_time.strftime, f, m.localtime() if t is None else t)
    m.strptime = real_time.strptime
    m.asctime = lambda t=None: real_time.asctime(m.gmtime() if t is None else t)
    m.ctime = lambda s=None: m.asctime(m.gmtime(s))
    m.struct_time = real_time.struct_time
    m.timezone = m.altzone = 0
    m.daylight = 0
    m.tzname = ('UTC', 'UTC')
    m.tzset = lambda: None
    m.CLOCK_REALTIME, m.CLOCK_MONOTONIC = 0, 1
    return m


class SimRandom(real_random.Random):
    def __new__(cls, *a):
        return super().__new__(cls)
    def __init__(self, x=None):
        super().__init__(G.world.rng_rand.getrandbits(64) if x is None else x)

class SimSystemRandom(real_random.Random):
    def __new__(cls, *a):
        return super().__new__(cls)
    def __init__(self, x=None):
        super().__init__(0)
    def random(self): return G.world.rng_rand.random()
    def getrandbits(self, k): return G.world.rng_rand.getrandbits(k)
    def randbytes(self, n): return G.world.rng_rand.randbytes(n)
    def seed(self, *a): pass

def _mkrandom():
    m = types.ModuleType('random')
    m.Random = SimRandom
    m.SystemRandom = SimSystemRandom
    def inst():
        p = cur()
        r = p.aux.get('random')
        if r is None:
            r = p.aux['random'] = real_random.Random(G.world.rng_rand.getrandbits(64))
        return r
    for k in ('random randrange randint choice choices shuffle sample uniform seed getrandbits'
              ' randbytes').split():
        def f(*a, _k=k, **kw):
            return getattr(inst(), _k)(*a, **kw)
        setattr(m, k, f)
    return m


def _mksignal():
    m = types.ModuleType('signal')
    for k in dir(real_signal):
        if k.startswith('SIG') or k in ('Signals', 'Handlers', 'Sigmasks', 'default_int_handler'):
            setattr(m, k, getattr(real_signal, k))
    def signal(n, h):
        hs = cur().aux.setdefault('signals', {})
        old = hs.get(n, real_signal.SIG_DFL)
        hs[n] = h
        return old
    m.signal = signal
    m.getsignal = lambda n: cur().aux.get('signals', {}).get(n, real_signal.SIG_DFL)
    m.siginterrupt = lambda *a: None
    return m


def _mkselect():
    m = types.ModuleType('select')
    m.select = functools.partial(simposix.select) # must not bind as a method
    m.error = OSError
    return m


def _mkfcntl():
    m = types.ModuleType('fcntl')
    for k in dir(real_fcntl):
        if k.isupper():
            setattr(m, k, getattr(real_fcntl, k))
    def fcntl(fd, cmd, arg=0):
        p = cur()
        fd = fd if isinstance(fd, int) else fd.fileno()
        d = p.desc(fd)
        if cmd == real_fcntl.F_GETFL:
            return d.flags
        if cmd == real_fcntl.F_SETFL:
            keep = real_os.O_APPEND | real_os.O_NONBLOCK
            d.flags = (d.flags & ~keep) | (arg & keep)
            return 0
        if cmd == real_fcntl.F_SETFD:
            p.fds[fd][1] = not arg & real_fcntl.FD_CLOEXEC
            return 0
        if cmd == real_fcntl.F_GETFD:
            return 0 if p.fds[fd][1] else real_fcntl.FD_CLOEXEC
        raise HarnessError(f'fcntl {cmd}')
    m.fcntl = fcntl
    def flock(fd, op):
        # advisory whole-file locks
        w = G.world
        fd = fd if isinstance(fd, int) else fd.fileno()
        p, d = simposix._file_call('flock', fd)
        locks = w.flocks
        key = id(d.inode)
        if op & real_fcntl.LOCK_UN:
            locks.pop(key, None) if locks.get(key) is d else None
            return
        def free():
            o = locks.get(key)
            return o is None or o is d or o.refs <= 0
        if not free():
            if op & real_fcntl.LOCK_NB:
                raise perr(errno.EWOULDBLOCK)
            w.block(p, free, on='flock')
        locks[key] = d
    m.flock = m.lockf = flock
    def ioctl(*a):
        raise perr(errno.ENOTTY)
    m.ioctl = ioctl
    return m


def _mksocket():
    m = types.ModuleType('socket')
    for k in ('AF_UNIX AF_INET AF_INET6 AF_UNSPEC SOCK_STREAM SHUT_WR SHUT_RD SHUT_RDWR'
              ' AI_PASSIVE SOL_SOCKET SO_REUSEADDR').split():
        setattr(m, k, getattr(real_socket, k))
    m.error = OSError
    m.gethostname = m.getfqdn = lambda *a: cur().host.name
    def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
        fams = [f for f in (real_socket.AF_INET,) if family in (0, f)]
        return [(f, real_socket.SOCK_STREAM, 6, '', (host or '0.0.0.0', port)) for f in fams]
    m.getaddrinfo = getaddrinfo
    class socket:
        def __init__(self, fam=real_socket.AF_INET, typ=real_socket.SOCK_STREAM, proto=0, *, _fd=-1):
            self.fam = fam
            self.fd = _fd
            self.addr = None
        def _desc(self):
            p = cur()
            if self.fd < 0:
                raise perr(errno.EBADF)
            return p.desc(self.fd)
        def setsockopt(self, *a): pass
        def bind(self, addr):
            if self.fam == real_socket.AF_UNIX:
                simposix.bind_unix(addr)
                return
            self.addr = addr
        def listen(self, n=1):
            p = G.world.enter('listen')
            key = (p.host.name, self.addr[1])
            if key in G.world.listeners:
                raise perr(errno.EADDRINUSE)
            self.fd = p.newfd(ListenDesc(G.world, key))
        def accept(self):
            p, d = simposix._file_call('accept', self.fd)
            w = G.world
            if not d.queue:
                w.block(p, lambda: d.queue, on='accept')
            s = d.queue.pop(0)
            fd = p.newfd(s)
            s.decref()
            return socket(self.fam, _fd=fd), ('192.0.2.1', 40000)
        def connect(self, addr):
            w = G.world
            p = w.enter('connect', None, addr[0])
            name = addr[0].decode() if isinstance(addr[0], bytes) else addr[0]
            h = w.hosts.get(name)
            l = w.listeners.get((name, addr[1]))
            if h is None or h.down:
                raise perr(errno.EHOSTUNREACH)
            if l is None:
                raise perr(errno.ECONNREFUSED)
            a, b = Pipe(w.pipe_capacity, name='sock>'), Pipe(w.pipe_capacity, name='sock<')
            self.fd = p.newfd(SockDesc(b, a))
            l.queue.append(SockDesc(a, b).incref())
            w.connected(p, h, [a, b])
        def fileno(self): return self.fd
        def makefile(self, mode='r', buffering=None, **kw):
            return sim_open(simposix.dup(self.fd), mode, **kw)
        def shutdown(self, how):
            p, d = simposix._file_call('shutdown', self.fd)
            if d.kind == 'sock':
                d.shut(how)
        def close(self):
            if self.fd >= 0:
                fd, self.fd = self.fd, -1
                simposix.close(fd)
        def __enter__(self): return self
        def __exit__(self, *a): self.close()
        def __getattr__(self, k):
            raise HarnessError(f'socket.{k} is not simulated')
    m.socket = socket
    return m


def _mksqlite():
    m = types.ModuleType('sqlite3')
    for k in ('Error OperationalError DatabaseError IntegrityError Row Binary sqlite_version').split():
        setattr(m, k, getattr(real_sqlite3, k))
    class Conn:
        def __init__(self, path):
            self._path = path
            self._owner = cur()
            self._c = real_sqlite3.connect(':memory:', check_same_thread=False)
            fd = simposix.open_(path, real_os.O_RDWR | real_os.O_CREAT, 0o644)
            data = b''
            while True:
                b = simposix.read(fd, 1 << 20)
                if not b:
                    break
                data += b
            simposix.close(fd)
            if data:
                self._c.deserialize(data)
        def commit(self):
            self._c.commit()
            fd = simposix.open_(self._path, real_os.O_WRONLY | real_os.O_CREAT, 0o644)
            data = self._c.serialize()
            simposix.ftruncate(fd, 0)
            while data:
                n = simposix.write(fd, data)
                data = data[n:]
            simposix.fsync(fd)
            simposix.close(fd)
        def rollback(self): self._c.rollback()
        def close(self): self._c.close()
        def cursor(self, *a): return self._c.cursor(*a)
        def execute(self, *a): return self._c.execute(*a)
        @property
        def text_factory(self): return self._c.text_factory
        @text_factory.setter
        def text_factory(self, f): self._c.text_factory = f
        @property
        def in_transaction(self): return self._c.in_transaction
        def __enter__(self): return self
        def __exit__(self, t, v, tb):
            if t is None:
                self.commit()
            else:
                self.rollback()
    m.connect = lambda path, *a, **k: Conn(path)
    m.Connection = Conn
    return m


def _mkxattr():
    m = types.ModuleType('xattr')
    m.NS_USER, m.NS_SYSTEM = b'user', b'system'
    def fb(p): return simposix.fsencode(p)
    def get_all(path, nofollow=False, **k):
        return [(simposix.fsencode(n), simposix.getxattr(path, n, follow_symlinks=not nofollow))
                for n in simposix.listxattr(path, follow_symlinks=not nofollow)]
    m.get_all = get_all
    m.list = lambda path, nofollow=False, **k: \
        [simposix.fsencode(n) for n in simposix.listxattr(path, follow_symlinks=not nofollow)]
    m.get = lambda path, name, nofollow=False, **k: \
        simposix.getxattr(path, name, follow_symlinks=not nofollow)
    m.set = lambda path, name, value, nofollow=False, **k: \
        simposix.setxattr(path, name, value, follow_symlinks=not nofollow)
    m.remove = lambda path, name, nofollow=False, **k: \
        simposix.removexattr(path, name, follow_symlinks=not nofollow)
    return m


# ---------------------------------------------------------------- sys, environ, builtins

class SysFacade(types.ModuleType):
    _own = frozenset(('stdin', 'stdout', 'stderr', 'argv', 'excepthook', '__stdin__', '__stdout__',
                      '__stderr__'))
    def __getattr__(self, k):
        if k in SysFacade._own:
            w = G.world
            p = w.current if w is not None else None
            if p is None:
                return getattr(real_sys, k)
            if k.startswith('__'):
                k = k[2:-2]
            try:
                return p.sys[k]
            except KeyError:
                if k == 'excepthook':
                    return _default_excepthook
                raise AttributeError(k) from None
        return getattr(real_sys, k)
    def __setattr__(self, k, v):
        if k in SysFacade._own:
            cur().sys[k] = v
        elif k.startswith('__'):
            super().__setattr__(k, v)
        else:
            raise HarnessError(f'sys.{k} = ...')

def _default_excepthook(t, v, tb):
    e = cur().sys['stderr']
    e.write(''.join(real_traceback.format_exception(t, v, tb)))
    e.flush()


class Env(MutableMapping):
    """os.environb / os.environ of the current process."""
    def __init__(self, text):
        self.text = text
    def _k(self, k):
        if self.text:
            if not isinstance(k, str):
                raise TypeError('str expected, not %s' % type(k).__name__)
            return real_os.fsencode(k)
        if not isinstance(k, bytes):
            raise TypeError('bytes expected, not %s' % type(k).__name__)
        return k
    def _o(self, v): return real_os.fsdecode(v) if self.text else v
    def __getitem__(self, k):
        try:
            return self._o(cur().environ[self._k(k)])
        except KeyError:
            raise KeyError(k) from None
    def __setitem__(self, k, v): cur().environ[self._k(k)] = self._k(v)
    def __delitem__(self, k):
        try:
            del cur().environ[self._k(k)]
        except KeyError:
            raise KeyError(k) from None
    def __iter__(self): return iter([self._o(k) for k in cur().environ])
    def __len__(self): return len(cur().environ)
    def copy(self): return dict(self)


def _print(*args, sep=' ', end='\n', file=None, flush=False):
    if file is None:
        file = cur().sys['stdout']
    real_builtins.print(*args, sep=sep, end=end, file=file, flush=flush)

def _input(prompt=''):
    o, i = cur().sys['stdout'], cur().sys['stdin']
    o.write(prompt)
    o.flush()
    l = i.readline()
    if not l:
        raise EOFError()
    return l.rstrip('\n')


def make_builtins(imp):
    b = dict(vars(real_builtins))
    b['open'] = sim_open
    b['print'] = _print
    b['input'] = _input
    b['__import__'] = imp
    return b


def resolve_std(name, globals_, fromlist, level):
    """Import as seen by the standard library and bup for non-bup modules."""
    if level:
        pkg = (globals_ or {}).get('__package__') or ''
        if pkg.partition('.')[0] not in STD:
            return real_builtins.__import__(name, globals_, None, fromlist, level)
        for _ in range(level - 1):
            pkg = pkg.rpartition('.')[0]
        name = pkg + '.' + name if name else pkg
    top = name.partition('.')[0]
    if name == 'os.path':
        if not fromlist:
            return STD['os']
        name = top = 'posixpath'
    if top not in STD and top not in PURE:
        if top in BLOCK or top.startswith('_') and importlib.util.find_spec(top) is None:
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        if top in UNSAFE or top not in real_sys.stdlib_module_names:
            raise HarnessError(f'import of unvetted module {name}')
        origin = importlib.util.find_spec(top).origin
        if top not in LAZY and (top.startswith('_') or not str(origin).endswith('.py')):
            return real_builtins.__import__(name, globals_, None, fromlist, 0)
        load_std(top)
    if top in STD:
        sofar = top
        for part in name.split('.')[1:]: # (a package of the standard library)
            _submodule(sofar, part)
            sofar += '.' + part
        m = STD[name]
        for f in fromlist or ():
            if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                try:
                    _submodule(name, f)
                except ModuleNotFoundError:
                    pass
        return m if fromlist else STD[top]
    return real_builtins.__import__(name, globals_, None, fromlist, 0)

def _submodule(pkg, leaf):
    name = pkg + '.' + leaf
    if name not in STD:
        if not hasattr(STD[pkg], '__path__') or importlib.util.find_spec(name) is None:
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        load_std(name)
    setattr(STD[pkg], leaf, STD[name])

# Modules that run as they are: they touch nothing outside the process.
# Any other module of the standard library that is written in Python is
# executed on the simulated substrate; the rest of those in C hold no I/O,
# except for these.
UNSAFE = set('''ctypes _ctypes multiprocessing _multiprocessing asyncio _asyncio ssl _ssl _posixshmem
 readline pty tty termios curses _curses dbm _dbm _gdbm syslog crypt nis spwd ossaudiodev
 faulthandler tracemalloc idlelib tkinter venv ensurepip pip site distutils pdb
 trace runpy zipimport concurrent socketserver'''.split())
LAZY = {'posixpath', 'genericpath'}
BLOCK = {'fuse', 'tornado', 'nt', '_winapi', 'msvcrt', 'pwd', 'grp', 'pylint'}
PURE = set('''abc stat re struct math hashlib heapq operator errno itertools functools contextlib
 collections binascii copy dataclasses typing enum array zlib bz2 lzma fnmatch textwrap getopt warnings
 types weakref _weakrefset _thread threading codecs keyword calendar urllib ipaddress pickle
 _collections_abc ntpath string builtins locale _locale cProfile mimetypes webbrowser
 pprint datetime bisect _codecs __future__ inspect tarfile zipfile _bootlocale
 pkgutil json base64 gc difflib decimal fractions numbers statistics graphlib unicodedata
 copyreg reprlib sched token tokenize ast dis opcode marshal encodings importlib linecache html
 contextvars cmath colorsys quopri hmac sysconfig zoneinfo http email xml
 '''.split())


def load_std(name, replace=()):
    """Run the real source of a standard module on the simulated substrate."""
    spec = importlib.util.find_spec(name)
    origin = spec.origin
    if origin in (None, 'frozen', 'built-in'):
        import sysconfig
        origin = real_os.path.join(sysconfig.get_paths()['stdlib'], name + '.py')
    with open(origin) as f:
        src = f.read()
    for a, b in replace:
        assert a in src, (name, a)
        src = src.replace(a, b)
    m = types.ModuleType(name)
    m.__file__ = origin
    if spec.submodule_search_locations is not None:
        m.__path__ = list(spec.submodule_search_locations)
        m.__package__ = name
    else:
        m.__package__ = name.rpartition('.')[0]
    m.__dict__['__builtins__'] = make_builtins(
        lambda n, g=None, l=None, fl=(), lv=0: resolve_std(n, g, fl, lv))
    STD[name] = m
    try:
        exec(compile(src, origin, 'exec', dont_inherit=True), m.__dict__)
    except BaseException:
        del STD[name]
        raise
    return m


def _build():
    STD['posix'] = P
    s = SysFacade('sys')
    s.__dict__['modules'] = {}
    STD['sys'] = s
    STD['io'] = _mkio()
    STD['mmap'] = _mkmmap()
    STD['time'] = _mktime()
    STD['random'] = _mkrandom()
    STD['signal'] = _mksignal()
    STD['select'] = _mkselect()
    STD['fcntl'] = _mkfcntl()
    STD['socket'] = _mksocket()
    STD['sqlite3'] = _mksqlite()
    STD['xattr'] = _mkxattr()

    r = types.ModuleType('resource')
    r.RUSAGE_SELF, r.RLIMIT_NOFILE = 0, real_resource.RLIMIT_NOFILE
    r.getrlimit = lambda w: (G.world.config.get('nofile', 1024),) * 2
    class _RU:
        ru_maxrss = ru_minflt = ru_majflt = ru_nvcsw = 0
        ru_utime = ru_stime = 0.0
    r.getrusage = lambda w: _RU()
    STD['resource'] = r

    pl = types.ModuleType('platform')
    pl.python_version = real_platform.python_version
    pl.system = lambda: 'Linux'
    STD['platform'] = pl

    u = types.ModuleType('uuid')
    u.uuid4 = lambda: real_uuid.UUID(bytes=simposix.urandom(16), version=4)
    u.UUID = real_uuid.UUID
    STD['uuid'] = u

    tb = types.ModuleType('traceback')
    def print_exception(exc, value=None, tb_=None, limit=None, file=None, chain=True, **kw):
        if file is None:
            file = cur().sys['stderr']
        ex = exc if isinstance(exc, BaseException) else value
        for l in real_traceback.format_exception(ex):
            file.write(l)
        file.flush()
    tb.print_exception = print_exception
    tb.print_exc = lambda limit=None, file=None: print_exception(real_sys.exc_info()[1], file=file)
    tb.format_exc = real_traceback.format_exc
    tb.format_exception = real_traceback.format_exception
    tb.extract_stack = real_traceback.extract_stack
    tb.format_list = real_traceback.format_list
    tb.print_stack = lambda *a, **k: None
    STD['traceback'] = tb

    ax = types.ModuleType('atexit')
    def register(fn, *a, **kw):
        cur().aux.setdefault('atexit', []).append((fn, a, kw))
        return fn
    def unregister(fn):
        cur().aux['atexit'] = [x for x in cur().aux.get('atexit', ()) if x[0] != fn]
    ax.register, ax.unregister = register, unregister
    STD['atexit'] = ax

    osm = load_std('os')
    osm.environb = Env(False)
    osm.environ = Env(True)
    osm.getenv = lambda k, d=None: osm.environ.get(k, d)
    osm.getenvb = lambda k, d=None: osm.environb.get(k, d)
    def missing(name):
        # (a gap in the simulation must not look like a bug of bup)
        if not name.startswith('_') and hasattr(real_os, name) and name not in simposix.ABSENT \
                and simposix.ready:
            raise HarnessError(f'not simulated: os.{name}')
        raise AttributeError(f"module 'os' has no attribute {name!r}")
    osm.__getattr__ = missing
    load_std('glob')
    load_std('shutil')
    t = load_std('tempfile')
    t.tempdir = '/tmp'
    class Names:
        """Per-process candidate names (the real ones are random)."""
        def __iter__(self): return self
        def __next__(self):
            r = G.world.rng_rand
            return ''.join(r.choices('abcdefghijklmnopqrstuvwxyz0123456789_', k=8))
    t._get_candidate_names = lambda: Names()
    ps = types.ModuleType('_posixsubprocess')
    ps.fork_exec = simposix.fork_exec
    STD['_posixsubprocess'] = ps
    load_std('selectors')
    sp = load_std('subprocess')
    sp._USE_POSIX_SPAWN = False
    sp._active = None
    for m, real, ok in (('traceback', real_traceback, None), ('uuid', real_uuid, 'NAMESPACE_DNS NAMESPACE_URL uuid3 uuid5 SafeUUID'),
                        ('platform', real_platform, 'python_version_tuple python_implementation')):
        vetted(m, real, ok)
    for m, real in (('time', real_time), ('signal', real_signal), ('resource', real_resource),
                    ('fcntl', real_fcntl)):
        vetted(m, real, '')
    simposix.ready.append(1)

def vetted(name, real, ok):
    """What a stub module lacks comes from the real one if that is harmless (constants always
    are); anything else is a gap in the simulation, which must not look like a bug of bup."""
    ok = None if ok is None else set(ok.split())
    def get(k):
        if k.startswith('_') or not hasattr(real, k):
            raise AttributeError(f'module {name!r} has no attribute {k!r}')
        v = getattr(real, k)
        if ok is None or k in ok or isinstance(v, (int, str, bytes, tuple, type)):
            return v
        raise HarnessError(f'not simulated: {name}.{k}')
    STD[name].__getattr__ = get

_build()
