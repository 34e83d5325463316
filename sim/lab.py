"""Building simulated machines and running commands on them."""

import gc, os, re, stat

from . import loader, programs
from .fs import FS
from .kernel import (G, World, Host, HarnessError, SimHang, NullDesc, SinkDesc, SourceDesc, Pipe,
                     PipeR, PipeW, subrng, subseed)

REPO = b'/r'
SRC = b'/src'
HOME = b'/root'


class Result:
    def __init__(self, status, out, err, proc):
        self.status = status # waitpid status
        self.signal = status & 0x7f
        self.rc = -self.signal if self.signal else status >> 8
        self.out = out
        self.err = err
        self.uncaught = proc.uncaught
        self.proc = proc
    def __repr__(self):
        return f'<rc={self.rc} out={self.out[-200:]!r} err={self.err[-600:]!r}>'


def base_fs(fs):
    for d in (b'/dev', b'/tmp', b'/root', b'/home', b'/etc', b'/bin', b'/r', b'/src'):
        fs.mkdirs(d, 0o1777 if d == b'/tmp' else 0o755)
    d = fs.resolve(b'/dev')
    fs.create(d, b'null', stat.S_IFCHR | 0o666, rdev=os.makedev(1, 3))
    fs.create(d, b'tty', stat.S_IFCHR | 0o666, rdev=os.makedev(5, 0))
    fs.sync_all()


def new_world(seed, config=None, hosts=(('host', {}),), max_steps=2_000_000):
    w = World(seed, config=config or {}, max_steps=max_steps)
    G.world = w
    programs.install(w)
    for name, kw in hosts:
        add_host(w, name, **kw)
    return w


def add_host(w, name, fs=None, **kw):
    h = Host(w, name, fs if fs is not None else FS(**kw))
    w.hosts[name] = h
    h.accounts = loader.DEFAULT_ACCOUNTS
    h.env = {b'HOME': HOME, b'PATH': b'/usr/bin:/bin', b'BUP_DIR': REPO, b'LANG': b'C.UTF-8',
             b'GIT_CONFIG_NOSYSTEM': b'1', b'TZ': b'UTC'}
    if fs is None:
        base_fs(h.fs)
    return h


def start(w, host, argv, *, stdin=None, env=None, cwd=b'/', out=None, err=None, uid=0, gid=0,
          fds=None):
    argv = [os.fsencode(a) for a in argv]
    out = out if out is not None else SinkDesc()
    err = err if err is not None else SinkDesc()
    if stdin is None:
        stdin = NullDesc()
    elif isinstance(stdin, (bytes, bytearray)):
        stdin = SourceDesc(stdin)
    e = dict(host.env)
    e.update(env or {})
    table = {0: stdin, 1: out, 2: err}
    table.update(fds or {})
    p = w.spawn(host, argv, env=e, cwd=host.fs.resolve(cwd), cwd_path=cwd, fds=table, uid=uid,
                gid=gid)
    p.aux['out'], p.aux['err'] = out, err
    return p


def result(p):
    o, e = p.aux['out'], p.aux['err']
    return Result(p.status, bytes(getattr(o, 'buf', b'')), bytes(getattr(e, 'buf', b'')), p)


def run(w, host, argv, **kw):
    p = start(w, host, argv, **kw)
    w.run(p)
    settle(w)
    return result(p)


def settle(w):
    """Let orphans (e.g. git children) finish."""
    if any(not p.dead and not p.aux.get('daemon') for p in w.procs):
        w.run_until(lambda: not any(not p.dead and not p.aux.get('daemon') for p in w.procs))


def bup(w, host, *args, **kw):
    return run(w, host, (b'bup',) + args, **kw)


def call(w, host, fn, **kw):
    """Run fn(load) in a Python process with bup's modules: load(name) returns one.
    Returns (Result, value)."""
    p = start(w, host, [b'harness'], **kw)
    p.aux['fn'] = fn
    w.run(p)
    settle(w)
    return result(p), p.aux.get('value')


def ok(r, what=''):
    if r.rc != 0:
        raise HarnessError(f'setup step failed: {what} {r!r}')
    return r


# ---------------------------------------------------------------- scenarios

from . import gen, oracle
from .gen import enc

def add_objects(fs, repo, objs, level=1):
    """Write a pack with the given (type, content) objects; returns their ids."""
    import hashlib, struct, zlib
    types = {b'commit': 1, b'tree': 2, b'blob': 3, b'tag': 4}
    out = [b'PACK\0\0\0\2', struct.pack('!I', len(objs))]
    oids = []
    for t, c in objs:
        oids.append(hashlib.sha1(b'%s %d\0' % (t, len(c)) + c).digest())
        n = len(c)
        b = types[t] << 4 | n & 15
        n >>= 4
        h = bytearray()
        while n:
            h.append(b | 0x80)
            b = n & 0x7f
            n >>= 7
        h.append(b)
        out += [bytes(h), zlib.compress(c, level)]
    body = b''.join(out)
    pack = body + hashlib.sha1(body).digest()
    stem = repo + b'/objects/pack/pack-' + hashlib.sha1(b''.join(sorted(oids))).hexdigest().encode()
    fs.put(stem + b'.pack', pack)
    fs.put(stem + b'.idx', programs.build_idx(pack))
    return oids

def set_ref(fs, repo, name, oid):
    fs.mkdirs((repo + b'/' + name).rsplit(b'/', 1)[0])
    fs.put(repo + b'/' + name, oid.hex().encode() + b'\n')


class Lab:
    """A world with one or two machines on which a plan's operations run.

    cfg keys: seed, gran, ino, personality, preempt, frag, srv (bool), config (text appended to
    the repository's configuration), capacity, pipe_capacity, latency."""

    def __init__(self, cfg, *, fs=None, init=True):
        self.cfg = cfg
        wc = {k: cfg[k] for k in ('preempt', 'frag', 'personality', 'pipe_capacity', 'latency', 'short_writes') if k in cfg}
        kw = {k2: cfg[k] for k, k2 in (('gran', 'gran'), ('ino', 'ino_policy')) if k in cfg}
        hosts = [('host', dict(kw))]
        if cfg.get('srv'):
            hosts.append(('srv', dict(kw)))
        self.w = new_world(cfg.get('seed', 0), wc, hosts=hosts,
                           max_steps=cfg.get('max_steps', 3_000_000))
        self.host = self.w.hosts['host']
        self.srv = self.w.hosts.get('srv')
        if fs is not None:
            self.use_fs('host', fs)
        self.saves = [] # dicts: branch, oid, snap
        if cfg.get('epoch'):
            self.w.epoch = cfg['epoch']
        if cfg.get('trace'):
            self.w.tracing = []
        if init and fs is None:
            self.init()

    def use_fs(self, name, fs):
        h = self.w.hosts[name]
        h.fs = fs
        fs.now = h.wall_ns

    def init(self):
        for h in self.w.hosts.values():
            ok(bup(self.w, h, 'init'), 'init')
            c = self.cfg.get('srv_config' if h is self.srv else 'config') or ''
            self.add_config(h, REPO, c)
            h.fs.sync_all()
        return self

    def add_config(self, host, repo, text):
        if text:
            f = host.fs
            f.put(repo + b'/config', f.read(repo + b'/config') + text.encode())

    def sleep(self, ns):
        self.w.now += ns

    def args(self, args, host):
        """Replace @placeholders: @save:BRANCH:N (name of the Nth newest save),
        @oid:REF:N (commit id)."""
        out = []
        for a in args:
            b = a if isinstance(a, bytes) else gen.enc(a)
            b = re.sub(br'@(save|oid):([^:]+):(\d+)', lambda m: self._subst(host, m), b)
            out.append(b)
        return out

    def _subst(self, host, m):
        kind, br, n = m.groups()
        r = self.repo(host)
        try:
            h = r.history(r.refs()[b'refs/heads/' + br])
        except KeyError:
            return b'nonexistent'
        i = min(int(n), len(h) - 1)
        return h[i].hex().encode() if kind == b'oid' else save_names(r, h, host.env.get(b'TZ', b'UTC'))[i]

    def repo(self, host=None, path=REPO):
        return oracle.Repo((host or self.host).fs, path)

    def do(self, op, **kw):
        """Run one operation; returns a Result for commands."""
        k = op[0]
        if k == 'fs':
            for e in op[1]:
                gen.apply_edit(self.host.fs, SRC, e)
                self.w.now += 1000 + self.w.rng_clock.randrange(3_000_000)
            return None
        if k == 'sleep':
            self.sleep(op[1])
            return None
        if k == 'sync':
            for h in self.w.hosts.values():
                h.fs.sync_all()
            return None
        if k == 'copypacks': # from another repository, as an administrator might
            fs = self.w.hosts[op[3] if len(op) > 3 else 'host'].fs
            for p, i in sorted(self.host.fs.tree(enc(op[1]) + b'/objects/pack')):
                if p.endswith((b'.pack', b'.idx')):
                    fs.put(enc(op[2]) + b'/objects/pack/' + p.rsplit(b'/', 1)[-1], bytes(i.data))
            return None
        if k == 'config':
            self.add_config(self.w.hosts[op[3] if len(op) > 3 else 'host'], enc(op[1]), op[2])
            return None
        if k == 'rmpack': # a pack gets lost
            d = self.host.fs.lookup(enc(op[2]) if len(op) > 2 else REPO + b'/objects/pack')
            l = sorted(n for n in d.entries if n.endswith(b'.pack'))
            if l:
                n = l[op[1] % len(l)]
                for e in (n, n[:-5] + b'.idx'):
                    i = d.entries.get(e)
                    if i is not None:
                        self.host.fs.unlink(d, e, i)
            return None
        if k == 'clock':
            self.w.hosts[op[1]].clock_offset += op[2]
            return None
        if k == 'bup':
            o = op[2] if len(op) > 2 else {}
            h = self.w.hosts[o.get('host', 'host')]
            if 'stdin' in o:
                kw.setdefault('stdin', gen.content(o['stdin']))
            if 'env' in o:
                kw.setdefault('env', {gen.enc(a): gen.enc(b) for a, b in o['env'].items()})
            return run(self.w, h, [b'bup'] + self.args(op[1], h), **kw)
        raise HarnessError(f'unknown operation {op}')

    def start(self, op, **kw):
        o = op[2] if len(op) > 2 else {}
        h = self.w.hosts[o.get('host', 'host')]
        if 'stdin' in o:
            kw.setdefault('stdin', gen.content(o['stdin']))
        return start(self.w, h, [b'bup'] + self.args(op[1], h), **kw)

    def bup(self, *args, **kw):
        host = kw.pop('host', self.host)
        return run(self.w, host, [b'bup'] + self.args(list(args), host), **kw)

    def close(self):
        self.w.abandon()


def save_names(r, history, tz=b'UTC'):
    """Names under which the saves of a branch (newest first) appear."""
    from time import localtime, strftime
    from .simlibs import in_zone
    res = []
    names = [in_zone(tz, lambda t: strftime('%Y-%m-%d-%H%M%S', localtime(t)), r.commit(o)['author_time']).encode()
             for o in history]
    # bup: oldest keeps ... duplicates get a numeric suffix, in reverse order of history
    dup = {}
    for n in names:
        dup[n] = dup.get(n, 0) + 1
    if all(v == 1 for v in dup.values()):
        return names
    seen = {}
    for n in names:
        if dup[n] == 1:
            res.append(n)
        else:
            k = dup[n] - 1 - seen.get(n, 0)
            seen[n] = seen.get(n, 0) + 1
            res.append(n + b'-%0*d' % (len(str(dup[n] - 1)), k))
    return res
