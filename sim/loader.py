"""Runs bup itself: every simulated bup process gets freshly executed copies of
the modules under /repo/lib/bup, on top of the simulated standard library."""

import ctypes, errno, importlib.machinery, importlib.util, io as real_io, os as real_os
import sys as real_sys, threading, types

from . import build, simlibs, simposix
from .kernel import G, HarnessError, SimKilled, NullDesc
from .simlibs import STD, make_builtins, resolve_std

REPO = build.REPO
LIB = real_os.path.join(REPO, 'lib')

_code = {}
_helpers_real = None


def _load_helpers():
    global _helpers_real
    if _helpers_real is not None:
        return _helpers_real
    so = build.helpers_so()
    dll = ctypes.PyDLL(so)
    dll.simlibc_install.argtypes = [ctypes.py_object]
    dll.simlibc_install.restype = None
    real_os.environ.pop('BUP_FORCE_TTY', None)
    dll.simlibc_install(_libc)
    loader = importlib.machinery.ExtensionFileLoader('bup._helpers', so)
    spec = importlib.util.spec_from_file_location('bup._helpers', so, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    _helpers_real = m
    return m


def _libc(name, *a):
    """System calls made by the C helpers."""
    w = G.world
    if w is None or w.current is None:
        if name == 'isatty':
            return 0
        raise OSError(errno.ENOSYS, name)
    p = w.current
    try:
        return _libc2(name, *a)
    except KeyboardInterrupt:
        # C code sees no exception; Python notices the signal afterwards
        r = _libc2(name, *a)
        p.sigint = True
        return r

def _libc2(name, *a):
    w = G.world
    p = w.current
    if name == 'read':
        return simposix.read(*a)
    if name == 'write':
        return simposix.write(*a)
    if name == 'lseek':
        return simposix.lseek(*a)
    if name == 'openat':
        dfd, path, flags, mode = a
        return simposix.open_(path, flags & ~real_os.O_LARGEFILE if hasattr(real_os, 'O_LARGEFILE') else flags,
                              mode, dir_fd=None if dfd == -100 else dfd)
    if name == 'close':
        simposix.close(*a)
        return 0
    if name == 'fstatat':
        dfd, path, flags = a
        at = simposix._at(path, None if dfd == -100 else dfd)
        q = w.enter('stat', at.abs)
        i = at.walk(follow=not flags & 0x100)
        return simposix.raw_stat(i, q.fs)
    if name == 'fstat':
        q = w.enter('fstat')
        return simposix.raw_stat(simposix.fd_inode(q, a[0]), q.fs)
    if name == 'ioctl':
        fd, req, arg = a
        return do_ioctl(p, fd, req, arg)
    if name == 'gethostname':
        return p.host.name.encode()
    if name == 'isatty':
        return 0
    raise OSError(errno.ENOSYS, name)

FS_IOC_GETFLAGS, FS_IOC_SETFLAGS = 0x80086601, 0x40086602

def do_ioctl(p, fd, req, arg):
    w = G.world
    q, d = simposix._file_call('ioctl', fd)
    if d.kind != 'file':
        raise OSError(errno.ENOTTY, 'ioctl')
    req &= 0xffffffff
    if req == FS_IOC_GETFLAGS:
        return d.inode.attr
    if req == FS_IOC_SETFLAGS:
        d.inode.attr = arg
        d.inode.ctime = p.fs.stamp()
        return arg
    raise OSError(errno.ENOTTY, 'ioctl')


# -- account database of the simulated hosts

def _accounts(p): return p.host.accounts

def _pw(e):
    return (e[0], b'x', e[1], e[2], e[3], b'/home/' + e[0], b'/bin/sh') if e else None

def h_getpwuid(uid): return _pw(next((e for e in _accounts(simlibs.cur())['pw'] if e[1] == uid), None))
def h_getpwnam(n): return _pw(next((e for e in _accounts(simlibs.cur())['pw'] if e[0] == n), None))
def _gr(e): return (e[0], b'x', e[1], []) if e else None
def h_getgrgid(gid): return _gr(next((e for e in _accounts(simlibs.cur())['gr'] if e[1] == gid), None))
def h_getgrnam(n): return _gr(next((e for e in _accounts(simlibs.cur())['gr'] if e[0] == n), None))

ACL_KEY = b'\0acl'

# An inode's ACL is kept in numeric form, access and default (or b'') separated by a slash.

def _acl_map(p, text, names):
    out = []
    for e in text.split(b','):
        t, who, perm = e.split(b':')
        if who:
            db = _accounts(p)['pw' if t == b'u' else 'gr']
            if names:
                who = next((x[0] for x in db if x[1] == int(who)), who)
            elif not who.isdigit():
                n = who
                who = next((b'%d' % x[1] for x in db if x[0] == n), None)
                if who is None:
                    raise OSError(errno.EINVAL, 'acl')
        out.append(b':'.join((t, who, perm)))
    return b','.join(out)

def h_read_acl(name, isdir):
    a = simposix._at(name)
    p = G.world.enter('getacl', a.abs)
    i = a.walk()
    v = (i.xattrs or {}).get(ACL_KEY)
    if v is None:
        return None
    acc, dfl = v.split(b'/')
    if isdir:
        return (_acl_map(p, acc, True), acc, _acl_map(p, dfl, True) if dfl else b'', dfl)
    return (_acl_map(p, acc, True), acc)

def h_apply_acl(name, acl, default=None):
    a = simposix._at(name)
    p = G.world.enter('setacl', a.abs)
    i = a.walk()
    simposix._owner(i, p, name)
    v = _acl_map(p, acl, False) + b'/' + (_acl_map(p, default, False) if default else b'')
    i.xattrs = dict(i.xattrs or {})
    i.xattrs[ACL_KEY] = v
    i.ctime = p.fs.stamp()

DEFAULT_ACCOUNTS = {
    'pw': [(b'root', 0, 0, b'root'), (b'alice', 1000, 1000, b'Alice A,,'), (b'bob', 1001, 1001, b'Bob')],
    'gr': [(b'root', 0), (b'alice', 1000), (b'bob', 1001), (b'staff', 50)],
}


# -- module loading

def _source(name):
    """(path, is_package) or None."""
    base = real_os.path.join(LIB, *name.split('.'))
    e = _code.get(('path', name))
    if e is not None:
        return e
    if real_os.path.isfile(base + '.py'):
        e = (base + '.py', False)
    elif real_os.path.isfile(base + '/__init__.py'):
        e = (base + '/__init__.py', True)
    else:
        return None
    _code['path', name] = e
    return e

def _compiled(path):
    c = _code.get(path)
    if c is None:
        with open(path, 'rb') as f:
            src = f.read()
        c = _code[path] = compile(src, path, 'exec', dont_inherit=True)
    return c


STUBBED = ('fuse', 'tornado')

class Importer:
    def __init__(self, p):
        self.p = p
        self.mods = p.modules
        self.builtins = make_builtins(self.imp)
        self.builtins['print'] = simlibs._print
        own = p.aux['own_modules'] = []
        self.own = own

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition('.')
        if parent:
            self.load(parent)
            m = self.mods.get(name)
            if m is not None:
                return m
        if name == 'bup_main':
            m = types.ModuleType('bup_main')
            m.env_pythonpath = b'/nonexistent'
        elif name == 'bup._helpers':
            real = _load_helpers()
            m = types.ModuleType(name)
            for k, v in vars(real).items():
                if not k.startswith('__'):
                    setattr(m, k, v)
            m.getpwuid, m.getpwnam = h_getpwuid, h_getpwnam
            m.getgrgid, m.getgrnam = h_getgrgid, h_getgrnam
            m.read_acl, m.apply_acl = h_read_acl, h_apply_acl
        elif name == 'bup.checkout_info':
            # build product
            m = types.ModuleType(name)
            m.commit, m.date, m.modified = '0' * 40, '2026-01-01 00:00:00 +0000', False
        else:
            s = _source(name)
            if s is None:
                raise ModuleNotFoundError(f'No module named {name!r}', name=name)
            path, pkg = s
            m = types.ModuleType(name)
            m.__file__ = path
            if pkg:
                m.__path__ = [real_os.path.dirname(path)]
                m.__package__ = name
            else:
                m.__package__ = parent
            m.__dict__['__builtins__'] = self.builtins
            self.mods[name] = m
            self.own.append(m)
            try:
                exec(_compiled(path), m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        self.mods[name] = m
        if parent:
            setattr(self.mods[parent], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + '.' + name if name else pkg
        top = name.partition('.')[0]
        if top in ('bup', 'bup_main'):
            m = self.load(name)
            if not fromlist:
                return self.mods[top]
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and hasattr(m, '__path__'):
                    try:
                        self.load(name + '.' + f)
                    except ModuleNotFoundError as ex:
                        if ex.name != name + '.' + f:
                            raise
            return m
        if top in STUBBED and name in self.mods: # (put there by a check)
            return self.mods[name] if fromlist else self.mods[top]
        if top == 'builtins':
            m = types.ModuleType('builtins')
            m.__dict__.update(self.builtins)
            return m
        if top == 'importlib':
            m = types.ModuleType('importlib')
            m.import_module = self.import_module
            return m
        return resolve_std(name, globals, fromlist, 0)

    def import_module(self, name):
        if name.partition('.')[0] == 'bup':
            return self.load(name)
        raise ModuleNotFoundError(f'No module named {name!r}', name=name)


def setup_stdio(p):
    for fd in (0, 1, 2):
        if fd not in p.fds:
            p.fds[fd] = [NullDesc().incref(), True]
    p.sys['argv'] = [real_os.fsdecode(a) for a in p.argv]
    for n, fd, mode in (('stdin', 0, 'r'), ('stdout', 1, 'w'), ('stderr', 2, 'w')):
        raw = simlibs.SimFileIO(fd, mode, closefd=False)
        if mode == 'r':
            b = real_io.BufferedReader(raw, 8192)
        else:
            b = real_io.BufferedWriter(raw, 8192)
        t = real_io.TextIOWrapper(b, 'utf-8',
                                  'backslashreplace' if n == 'stderr' else 'surrogateescape',
                                  line_buffering=n == 'stderr',
                                  write_through=False)
        t.mode = mode
        p.sys[n] = t


_SIM = real_os.path.dirname(real_os.path.abspath(__file__)) + '/'

def check_harness(ex):
    """A programming error inside the simulator is no behaviour of bup."""
    e = ex
    while e is not None:
        if isinstance(e, (AttributeError, NameError)) and not isinstance(e, ModuleNotFoundError):
            tb = e.__traceback__
            while tb is not None and tb.tb_next is not None:
                tb = tb.tb_next
            if tb is not None and tb.tb_frame.f_code.co_filename.startswith(_SIM):
                raise HarnessError(f'simulator bug: {e!r}') from e
        e = e.__cause__ or e.__context__


def run_python(p, body):
    """Run body() as the main program of p; return the exit code."""
    p.aux['startup'] = True # no faults inside the interpreter itself
    setup_stdio(p)
    p.aux['startup'] = False
    code = 0
    try:
        body()
    except SystemExit as ex:
        code = ex.code
        if code is None:
            code = 0
        elif not isinstance(code, int):
            p.sys['stderr'].write(f'{code}\n')
            code = 1
    except (SimKilled, HarnessError):
        raise
    except BaseException as ex:
        check_harness(ex)
        hook = p.sys.get('excepthook', simlibs._default_excepthook)
        p.uncaught = ex
        try:
            hook(type(ex), ex, ex.__traceback__)
        except (SimKilled, HarnessError):
            raise
        except BaseException as ex2: # as in the interpreter: lost
            check_harness(ex2)
        code = 130 if isinstance(ex, KeyboardInterrupt) else 1
        ex.__traceback__ = None
        del ex
    while p.aux.get('atexit'):
        fn, a, kw = p.aux['atexit'].pop()
        try:
            fn(*a, **kw)
        except (SimKilled, HarnessError):
            raise
        except BaseException as ex:
            check_harness(ex)
            simlibs._default_excepthook(type(ex), ex, ex.__traceback__)
    try:
        if not p.sys['stdout'].closed:
            p.sys['stdout'].flush()
    except (SimKilled, HarnessError):
        raise
    except BaseException as ex:
        code = 120 if not code else code
    return code


def bup_program(p):
    imp = Importer(p)
    def body():
        main = imp.load('bup.main')
        main.main()
    return run_python(p, body)


def harness_program(p):
    imp = Importer(p)
    def body():
        p.aux['value'] = p.aux['fn'](imp.load)
    return run_python(p, body)


def preload():
    """Compile everything once (before worker processes are forked)."""
    _load_helpers()
    for d, _, files in real_os.walk(real_os.path.join(LIB, 'bup')):
        for f in files:
            if f.endswith('.py'):
                try:
                    _compiled(real_os.path.join(d, f))
                except SyntaxError:
                    raise
