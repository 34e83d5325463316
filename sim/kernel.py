"""The simulated machine(s): processes, scheduler, clock, pipes and faults.

Everything runs in one real process.  Every simulated process is a real thread,
but exactly one thread runs at any time: a thread only gives up the processor
inside a simulated system call, where the scheduler (driven by one seeded
generator) picks who runs next.  Time is virtual.
"""

import ctypes, errno, gc, hashlib, random, stat, sys, threading, time, traceback
from _thread import allocate_lock
from errno import EBADF, EPIPE, ECONNRESET, EAGAIN, EINVAL, ENOENT, ECHILD, EIO, ENOSPC

from .fs import FS, err

threading.stack_size(64 * 1024 * 1024)


CPU_LIMIT = 20


class G:
    """The world being simulated (there is one at a time)."""
    world = None


def _baton():
    l = allocate_lock()
    l.acquire()
    return l


class SimKilled(BaseException):
    """Unwinds the thread of a process that has been killed."""

class SimHang(Exception):
    """No process can make progress, or the step bound was exceeded."""

class HarnessError(Exception):
    """The simulator was asked for something it does not model."""
    def __init__(self, *a):
        super().__init__(*a)
        w = G.world
        if w is not None and w.current is not None: # code under test may swallow it
            w.harness_errors.append((w.current.name(), f'{a} at\n'
                                     + ''.join(traceback.format_stack(limit=12))))


def subseed(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode() + b'\0')
    return int.from_bytes(h.digest()[:8], 'big')

def subrng(*parts):
    return random.Random(subseed(*parts))


# ---------------------------------------------------------------- descriptors

class Desc:
    """An open file description (shared by the descriptors that refer to it)."""
    kind = '?'
    path = None
    def __init__(self):
        self.refs = 0
        self.flags = 0
    def incref(self):
        self.refs += 1
        return self
    def decref(self):
        self.refs -= 1
        if self.refs == 0:
            self.closed()
    def closed(self): pass
    def ready_r(self, w): return True
    def ready_w(self, w): return True
    def next_time(self, w): return None
    def isatty(self): return False


class FileDesc(Desc):
    kind = 'file'
    def __init__(self, inode, flags, path, fs):
        super().__init__()
        self.inode = inode
        self.flags = flags
        self.pos = 0
        self.path = path
        self.fs = fs
        inode.opens += 1
    def closed(self):
        self.inode.opens -= 1
        self.fs.maybe_free(self.inode)


class NullDesc(Desc):
    kind = 'null'
    path = b'/dev/null'


class SinkDesc(Desc):
    """Captures output for the harness."""
    kind = 'sink'
    def __init__(self, buf=None):
        super().__init__()
        self.buf = bytearray() if buf is None else buf
        self.limit = None # full after that many bytes
        self.limit_hit = False
        self.limit_errno = EPIPE


class SourceDesc(Desc):
    """Input supplied by the harness; frag() gives the size of each read."""
    kind = 'source'
    def __init__(self, data, fail_at=None, fail_errno=EIO):
        super().__init__()
        self.data = memoryview(bytes(data))
        self.pos = 0
        self.fail_at = fail_at
        self.fail_errno = fail_errno


class Pipe:
    def __init__(self, capacity=65536, latency=None, name=None):
        self.segs = [] # [ready time, bytes, offset]
        self.size = 0
        self.capacity = capacity
        self.readers = 0
        self.writers = 0
        self.latency = latency # None or callable() -> ns
        self.broken = False
        self.cut_after = None # bytes accepted before the connection breaks
        self.on_cut = None
        self.total = 0
        self.last_ready = 0
        self.log = None # list of (time, n) when observed
        self.name = name
        self.record = None
        self.alter = None # or callable(data) -> data: damage in transit
        self.reset = False

    def brk(self, rng=None):
        """Break the connection; an arbitrary part of the bytes in flight is lost."""
        if self.broken:
            return
        self.broken = True
        if rng is not None and self.segs:
            keep = rng.randint(0, self.size)
            new = []
            for t, b, o in self.segs:
                n = len(b) - o
                if keep <= 0:
                    break
                if n > keep:
                    b = bytes(b[o:o + keep])
                    o, n = 0, keep
                new.append([t, b, o])
                keep -= n
            self.segs = new
            self.size = sum(len(b) - o for _, b, o in new)


class PipeR(Desc):
    kind = 'pipe'
    def __init__(self, pipe):
        super().__init__()
        self.pipe = pipe
        pipe.readers += 1
    def closed(self):
        self.pipe.readers -= 1
    def ready_r(self, w):
        p = self.pipe
        if p.segs:
            return p.segs[0][0] <= w.now
        return p.writers <= 0 or p.broken
    def next_time(self, w):
        return self.pipe.segs[0][0] if self.pipe.segs else None
    def ready_w(self, w): return False


class PipeW(Desc):
    kind = 'pipe'
    def __init__(self, pipe):
        super().__init__()
        self.pipe = pipe
        pipe.writers += 1
    def closed(self):
        self.pipe.writers -= 1
    def ready_r(self, w): return False
    def ready_w(self, w):
        p = self.pipe
        return p.broken or p.readers <= 0 or p.capacity - p.size >= min(4096, p.capacity)


class SockDesc(Desc):
    """One end of a connection: two pipes."""
    kind = 'sock'
    def __init__(self, rpipe, wpipe):
        super().__init__()
        self.r = PipeR(rpipe).incref()
        self.w = PipeW(wpipe).incref()
    def shut(self, how):
        if how in (1, 2) and self.w is not None:
            self.w.decref()
            self.w = None
        if how in (0, 2) and self.r is not None:
            self.r.decref()
            self.r = None
    def closed(self):
        self.shut(2)
    def ready_r(self, w): return self.r is None or self.r.ready_r(w)
    def next_time(self, w): return self.r.next_time(w) if self.r is not None else None
    def ready_w(self, w): return self.w is None or self.w.ready_w(w)


class ListenDesc(Desc):
    kind = 'listen'
    def __init__(self, world, key):
        super().__init__()
        self.world, self.key = world, key
        self.queue = []
        world.listeners[key] = self
    def closed(self):
        if self.world.listeners.get(self.key) is self:
            del self.world.listeners[self.key]
        for s in self.queue:
            s.decref()
    def ready_r(self, w): return bool(self.queue)
    def ready_w(self, w): return False


# ---------------------------------------------------------------- processes

class Host:
    """One machine: file system, name, clock offset."""
    def __init__(self, world, name, fs):
        self.world = world
        self.name = name
        self.fs = fs
        self.lying_disk = None
        self.down = False
        self.env = {}
        self.accounts = None
        self.clock_offset = 0 # ns added to the world's time for the wall clock
        fs.now = self.wall_ns
    def wall_ns(self):
        return self.world.epoch + self.world.now + self.clock_offset


class Proc:
    def __init__(self, world, host, argv, env, cwd, parent=None):
        self.world = world
        self.host = host
        self.argv = list(argv)
        self.environ = dict(env)
        self.cwd = cwd
        self.cwd_path = b'/'
        self.parent = parent
        self.pid = world.next_pid
        world.next_pid += 1
        self.fds = {} # fd -> [desc, inheritable]
        self.umask = 0o022
        self.uid = self.euid = 0
        self.gid = self.egid = 0
        self.groups = [0]
        self.state = 'ready' # ready blocked zombie reaped
        self.ready = None
        self.wake_time = None
        self.dead = False
        self.sigint = False
        self.status = None # waitpid status
        self.ghost = 0
        self.thread = None
        self.go = _baton()
        self.children = []
        self.sys = {}
        self.modules = {}
        self.uncaught = None
        self.nsys = 0
        self.prog = None
        self.killer = None
        self.killed_by_sim = None
        self.aux = {}
        # calls made so far, for programs that fork, and calls yet to be repeated in a new copy
        self.rec = [] if self.argv[1:2] == [b'fsck'] else None
        self.replay = None

    @property
    def fs(self): return self.host.fs

    def name(self):
        a = [x.decode('utf-8', 'replace') if isinstance(x, bytes) else x for x in self.argv]
        base = a[0].rsplit('/', 1)[-1] if a else '?'
        sub = ''
        if base == 'bup':
            i = 1
            while i < len(a) and a[i].startswith('-'):
                i += 2 if a[i] == '-d' else 1
            sub = ' ' + a[i] if i < len(a) else ''
        elif base == 'git':
            for x in a[1:]:
                if not x.startswith('-') and '=' not in x:
                    sub = ' ' + x
                    break
        return base + sub

    # -- descriptors

    def newfd(self, desc, inherit=False, low=0):
        fd = low
        while fd in self.fds:
            fd += 1
        self.fds[fd] = [desc.incref(), inherit]
        return fd

    def desc(self, fd):
        e = self.fds.get(fd)
        if e is None:
            raise err(EBADF)
        return e[0]

    def close_all(self):
        fds, self.fds = self.fds, {}
        for fd in sorted(fds):
            fds[fd][0].decref()

    # -- thread body

    def _body(self):
        self.go.acquire()
        w = self.world
        try:
            if not self.dead:
                self._run()
        except SimKilled:
            pass
        except BaseException as ex: # simulator bug
            w.harness_errors.append((self.name(), ''.join(traceback.format_exception(ex))))
            if not self.dead:
                self.finish(255 << 8)
        if self.killer is not None:
            k, self.killer = self.killer, None
            k.release()
        else:
            w.reschedule_from_exit(self)

    def _run(self):
        w = self.world
        code = w.exec_program(self)
        w.leave_program(self)
        if not self.dead:
            self.finish((code & 255) << 8)

    def exec_(self, argv, env):
        """Replace the program. The old program's stack stays suspended until the new
        one is done, and is then unwound without effects."""
        old = (self.modules, self.sys, self.aux.pop('own_modules', None))
        self.argv, self.environ = argv, env
        self.modules, self.sys = {}, {}
        for fd in sorted(self.fds):
            if not self.fds[fd][1]:
                self.fds.pop(fd)[0].decref()
        self._run()
        self.modules, self.sys, self.aux['own_modules'] = old
        raise SimKilled()

    def finish(self, status):
        w = self.world
        self.status = status
        self.dead = True
        self.state = 'zombie'
        self.close_all()
        w.trace('exit', self, status)
        w.exited(self)


class World:
    def __init__(self, seed, *, config=None, max_steps=2_000_000):
        self.seed = seed
        self.config = config or {}
        self.rng = subrng(seed, 'sched')
        self.rng_frag = subrng(seed, 'frag')
        self.rng_rand = subrng(seed, 'urandom')
        self.rng_clock = subrng(seed, 'clock')
        self.now = 0 # ns, monotonic
        self.epoch = 1_600_000_000 * 10**9
        self.next_pid = 100
        self.procs = []
        self.hosts = {}
        self.current = None
        self.steps = 0
        self.max_steps = max_steps
        self.programs = {}
        self.preempt = self.config.get('preempt', 0.0)
        self.frag_mode = self.config.get('frag', 'none')
        self.pipe_capacity = self.config.get('pipe_capacity', 65536)
        self.personality = self.config.get('personality', 'posix')
        self.faults = []
        self.counters = {}
        self.fault_counts = {}
        self.harness_errors = []
        self.main_go = _baton()
        self.main_wait = None
        self.tracing = None
        self.thash = hashlib.sha256()
        self.switches = 0
        self.sched_hash = hashlib.sha256()
        self.observers = []
        self.listeners = {} # (host name, port): ListenDesc
        self.connected = None # (see programs.install)
        self.unraisable = []
        self.hang = None
        self.env_actor = None # called at every step: concurrent outside activity
        self.started = 0
        self.read_hook = None
        self.time_hook = None
        self.dir_salt = subseed(seed, 'dirs') & 0xffffffff

    # ---- bookkeeping

    def host(self, name, **kw):
        h = Host(self, name, FS(**kw))
        self.hosts[name] = h
        return h

    def trace(self, what, proc, *args):
        rec = (proc.pid if proc else 0, what) + args
        self.thash.update(repr(rec).encode())
        if self.tracing is not None:
            self.tracing.append((self.now,) + rec)

    def trace_digest(self):
        return self.thash.hexdigest()[:16]

    def count(self, kind, n=1):
        self.counters[kind] = self.counters.get(kind, 0) + n

    # ---- processes

    def spawn(self, host, argv, *, env=None, cwd=None, cwd_path=b'/', fds=None, parent=None,
              uid=0, gid=0, inherit_all=False):
        """fds: {fd: desc}. The new process starts when it is first scheduled."""
        p = Proc(self, host, argv, env if env is not None else {},
                 cwd if cwd is not None else host.fs.root, parent)
        p.cwd.opens += 1
        p.cwd_path = cwd_path
        p.uid = p.euid = uid
        p.gid = p.egid = gid
        if uid:
            p.groups = [gid]
        for fd, d in (fds or {}).items():
            p.fds[fd] = [d.incref(), True]
        self.procs.append(p)
        if parent is not None:
            parent.children.append(p)
        p.thread = threading.Thread(target=p._body, daemon=True, name=f'sim-{p.pid}')
        p.thread.start()
        self.started += 1
        self.trace('spawn', p, [bytes(x) if isinstance(x, (bytes, bytearray)) else x for x in p.argv])
        return p

    def exec_program(self, p):
        argv = p.argv
        base = argv[0].rsplit(b'/', 1)[-1]
        prog = self.programs.get(base)
        if prog is None:
            raise HarnessError(f'no program {argv[0]!r}')
        p.prog = base
        return prog(p)

    def leave_program(self, p):
        # as at interpreter exit: destructors run in the process
        mods, p.modules = p.modules, {}
        for m in mods.values():
            d = getattr(m, '__dict__', None)
            if d is not None and p.aux.get('own_modules') and m in p.aux['own_modules']:
                d.clear()
        p.aux.pop('own_modules', None)
        p.sys = {}

    def exited(self, p):
        p.cwd.opens -= 1
        for c in p.children:
            if c.parent is p:
                c.parent = None
        if p.parent is None or p.parent.dead:
            p.state = 'reaped'

    def live(self):
        return [p for p in self.procs if not p.dead]

    def kill(self, p, sig):
        """Kill a process at once; its thread is unwound without further effects."""
        if p.dead:
            return
        p.killed_by_sim = sig
        p.status = sig
        p.dead = True
        p.state = 'zombie'
        p.close_all()
        self.trace('kill', p, sig)
        self.exited(p)
        hook = p.aux.get('on_death')
        if hook:
            hook()
        me = self.current
        if p is me:
            raise SimKilled()
        # unwind its thread now
        ev = _baton()
        p.killer = ev
        saved, self.current = self.current, p
        p.go.release()
        ev.acquire()
        self.current = saved

    def kill_host(self, host, sig=9):
        me = None
        for p in list(self.procs):
            if p.host is host and not p.dead:
                if p is self.current:
                    me = p
                else:
                    self.kill(p, sig)
        if me is not None:
            self.kill(me, sig)

    # ---- scheduling

    def runnable(self):
        res = []
        for p in self.procs:
            if p.dead:
                continue
            if p.state == 'ready':
                res.append(p)
            elif p.state == 'blocked' and ((p.ready is not None and p.ready())
                                           or p.sigint
                                           or (p.wake_time is not None
                                               and p.wake_time <= self.now)):
                res.append(p)
        return res

    def advance_to_event(self):
        """Nobody can run: move time to the next event. False if there is none."""
        t = None
        for p in self.procs:
            if p.dead or p.state != 'blocked' or p.aux.get('daemon'):
                continue # (a daemon's polling is not progress)
            if p.wake_time is not None and (t is None or p.wake_time < t):
                t = p.wake_time
            nt = p.aux.get('next_time')
            if nt is not None:
                x = nt()
                if x is not None and x > self.now and (t is None or x < t):
                    t = x
        if t is None:
            return False
        self.now = max(self.now, t)
        return True

    def pick(self):
        while True:
            r = self.runnable()
            if r:
                if len(r) > 1:
                    p = r[self.rng.randrange(len(r))]
                    self.sched_hash.update(b'%d/%d,' % (r.index(p), len(r)))
                else:
                    p = r[0]
                return p
            if self.main_wait is not None and self.main_wait():
                return None
            if not self.advance_to_event():
                self.hang = 'deadlock: ' + ', '.join(
                    f'{p.name()}[{p.pid}] {p.aux.get("blocked_on", p.state)}'
                    for p in self.procs if not p.dead)
                return None

    def hand_over(self, p):
        """Transfer control from the calling thread to p (None: the harness)."""
        if p is None:
            self.current = None
            self.main_go.release()
        else:
            p.state = 'ready'
            self.current = p
            self.switches += 1
            p.go.release()

    def reschedule_from_exit(self, p):
        if (self.main_wait is not None and self.main_wait()) or self.hang:
            self.hand_over(None)
            return
        self.hand_over(self.pick())

    def yield_to(self, me, p):
        if p is me:
            me.state = 'ready'
            self.current = me
            return
        self.hand_over(p)
        me.go.acquire()
        if me.dead:
            raise SimKilled()
        self.current = me

    def block(self, p, ready, *, until=None, next_time=None, on=None):
        """Block the current process until ready() or the time `until` (ns)."""
        while True:
            if ready is not None and ready():
                return True
            if until is not None and self.now >= until:
                return False
            if p.sigint:
                p.sigint = False
                raise KeyboardInterrupt()
            p.state = 'blocked'
            p.ready = ready
            p.wake_time = until
            p.aux['next_time'] = next_time
            p.aux['blocked_on'] = on
            nxt = self.pick()
            self.yield_to(p, nxt)
            p.state = 'ready'
            p.ready = None
            p.wake_time = None
            p.aux.pop('next_time', None)
            p.aux.pop('blocked_on', None)

    def run_until(self, cond):
        """Called by the harness: run processes until cond()."""
        assert self.current is None
        if cond():
            return
        self.main_wait = cond
        self.hang = None
        p = self.pick()
        if p is not None:
            self.hand_over(p)
            self._await()
        self.main_wait = None
        if self.harness_errors:
            n, tb = self.harness_errors[0]
            raise HarnessError(f'in {n}: {tb}')
        if self.hang:
            raise SimHang(self.hang)

    def _await(self):
        """Wait for control. A process that burns CPU_LIMIT seconds of processor time without
        a single system call is taken to be in an endless loop."""
        steps, cpu = self.steps, time.process_time()
        while not self.main_go.acquire(timeout=5):
            if self.steps != steps:
                steps, cpu = self.steps, time.process_time()
            elif time.process_time() - cpu > CPU_LIMIT and self.hang is None:
                p = self.current
                self.hang = f'endless loop in {p.name()}'
                p.dead = True
                p.state = 'zombie'
                ctypes.pythonapi.PyThreadState_SetAsyncExc(
                    ctypes.c_ulong(p.thread.ident), ctypes.py_object(SimKilled))

    def run(self, p):
        self.run_until(lambda: p.dead)
        return p.status

    def abandon(self):
        """Unwind every remaining process."""
        for p in list(self.procs):
            if not p.dead:
                self.kill(p, 9)

    # ---- every system call passes here

    def enter(self, call, path=None, info=None):
        p = self.current
        if p is None:
            raise HarnessError(f'system call {call} outside a process')
        if p.dead:
            p.ghost += 1
            raise SimKilled()
        self.steps += 1
        p.nsys += 1
        if self.steps > self.max_steps:
            self.hang = f'step limit exceeded ({p.name()} in {call})'
            for q in list(self.procs):
                if not q.dead and q is not p:
                    self.kill(q, 9)
            self.kill(p, 9)
        # virtual time passes
        r = self.rng_clock.random()
        self.now += 200 + int(r * 4000) if r < .995 else 1_000_000 + int(r * 30_000_000)
        self.trace(call, p, path, info)
        if p.sigint:
            p.sigint = False
            raise KeyboardInterrupt()
        if self.observers:
            for o in self.observers:
                o(p, call, path, info)
        if self.env_actor is not None:
            self.env_actor(p, call, path)
        if self.faults:
            for f in self.faults:
                f.check(self, p, call, path)
        if self.preempt and len(self.procs) > 1 and self.rng.random() < self.preempt:
            r = self.runnable()
            if len(r) > 1:
                q = r[self.rng.randrange(len(r))]
                self.sched_hash.update(b'p%d/%d,' % (r.index(q), len(r)))
                if q is not p:
                    self.yield_to(p, q)
        return p

    def frag(self, n):
        """How many of n available bytes a pipe read or write transfers."""
        m = self.frag_mode
        if m == 'none' or n <= 1:
            return n
        r = self.rng_frag
        if m == 'tiny':
            k = min(n, r.choice((1, 1, 2, 3, 5, 7, 16)))
        elif m == 'mixed':
            x = r.random()
            if x < .4:
                return n
            if x < .7:
                k = r.randint(1, n)
            else:
                k = min(n, r.choice((1, 2, 3, 4, 5, 8, 13, 100, 1000, 4096)))
        else:
            k = min(n, int(m))
        return k


# ---------------------------------------------------------------- faults

ERRNO = {k: getattr(errno, k) for k in
         ('EIO', 'ENOSPC', 'EACCES', 'ENOMEM', 'EMFILE', 'EINTR', 'EROFS', 'EDQUOT', 'ENOENT',
          'ESTALE', 'EPERM')}

class Fault:
    """Acts on the nth system call that matches.

    spec: calls (list), under (path prefix, latin-1), prog (prefix of Proc.name()),
    nth (0-based), action ('err' 'short' 'kill' 'killall' 'int' 'call' 'count'),
    errno, persist (keep failing)."""

    def __init__(self, spec, fn=None):
        self.spec = spec
        self.calls = frozenset(spec['calls']) if spec.get('calls') else None
        self.under = spec['under'].encode('latin-1') if spec.get('under') else None
        self.host = spec.get('host')
        self.prog = spec.get('prog')
        self.nth = spec.get('nth')
        self.action = spec['action']
        self.persist = spec.get('persist', False)
        self.seen = 0
        self.fired = 0
        self.fn = fn
        self.where = None

    def matches(self, w, p, call, path):
        if self.calls is not None and call not in self.calls:
            return False
        if self.prog is not None and not p.name().startswith(self.prog):
            return False
        if self.host is not None and p.host.name != self.host:
            return False
        if self.under is not None:
            if path is None or not path.startswith(self.under):
                return False
        return True

    def check(self, w, p, call, path):
        if p.aux.get('startup') or not self.matches(w, p, call, path):
            return
        n = self.seen
        self.seen += 1
        if self.action == 'count' or self.nth is None:
            return
        if n != self.nth and not (self.persist and n > self.nth):
            return
        self.fired += 1
        if self.where is None:
            self.where = f'{p.name()} {call} {path!r} #{n}'
        kind = self.action if self.action != 'err' else 'err-' + self.spec['errno']
        w.fault_counts[kind] = w.fault_counts.get(kind, 0) + 1
        w.trace('fault', p, kind, n)
        if self.action == 'err':
            e = ERRNO[self.spec['errno']]
            raise OSError(e, errno.errorcode[e], path) if path else err(e)
        if self.action == 'kill':
            w.kill(p, self.spec.get('signal', 9))
        if self.action == 'killhost':
            w.kill_host(p.host)
        if self.action == 'int':
            raise KeyboardInterrupt()
        if self.action == 'short':
            p.aux['short'] = True
        if self.action == 'call':
            self.fn(w, p, call, path)
