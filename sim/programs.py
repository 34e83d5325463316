"""Stand-ins for the external programs bup runs: git, par2 and ssh.

They run as simulated processes (their system calls are scheduled, faulted and
killed like bup's). tools/xval.py compares the git and par2 stand-ins with the
real programs.
"""

import errno, hashlib, heapq, json, os as real_os, stat, struct, zlib
from binascii import hexlify, unhexlify

from . import loader, simposix as X
from .kernel import G, HarnessError, SimKilled, Pipe
from .simposix import perr

O_RDONLY, O_WRONLY, O_CREAT, O_EXCL, O_TRUNC = (real_os.O_RDONLY, real_os.O_WRONLY, real_os.O_CREAT,
                                                 real_os.O_EXCL, real_os.O_TRUNC)


class Die(Exception):
    def __init__(self, code, msg=''):
        self.code = code
        self.msg = msg


def put(fd, data):
    while data:
        n = X.write(fd, data)
        data = data[n:]

def slurp(path):
    fd = X.open_(path, O_RDONLY)
    try:
        out = []
        while True:
            b = X.read(fd, 1 << 20)
            if not b:
                return b''.join(out)
            out.append(b)
    finally:
        X.close(fd)

def pread_full(fd, n, off):
    out = b''
    while len(out) < n:
        b = X.pread(fd, n - len(out), off + len(out))
        if not b:
            break
        out += b
    return out

class Lines:
    def __init__(self, fd):
        self.fd = fd
        self.buf = b''
    def next(self):
        while b'\n' not in self.buf:
            b = X.read(self.fd, 4096)
            if not b:
                r, self.buf = self.buf, b''
                return r
            self.buf += b
        l, _, self.buf = self.buf.partition(b'\n')
        return l + b'\n'


# ---------------------------------------------------------------- object store

TYPES = {1: b'commit', 2: b'tree', 3: b'blob', 4: b'tag'}


class BadPack(Exception):
    pass


class Idx:
    """A version 2 pack index."""
    def __init__(self, data):
        if len(data) < 8 + 1024 + 40 or data[:8] != b'\377tOc\0\0\0\2':
            raise BadPack('bad index header')
        self.data = data
        self.fan = struct.unpack('!256I', data[8:8 + 1024])
        self.n = self.fan[255]
        prev = 0
        for f in self.fan:
            if f < prev:
                raise BadPack('non-monotonic index')
            prev = f
        if len(data) < 8 + 1024 + self.n * 28 + 40:
            raise BadPack('truncated index')
        self.sha0 = 8 + 1024
        self.crc0 = self.sha0 + 20 * self.n
        self.ofs0 = self.crc0 + 4 * self.n
        self.ofs64 = self.ofs0 + 4 * self.n

    def oid(self, i): return self.data[self.sha0 + 20 * i:self.sha0 + 20 * i + 20]

    def oids(self):
        d, s = self.data, self.sha0
        return [d[s + 20 * i:s + 20 * i + 20] for i in range(self.n)]

    def crc(self, i):
        return struct.unpack('!I', self.data[self.crc0 + 4 * i:self.crc0 + 4 * i + 4])[0]

    def offset(self, i):
        o = struct.unpack('!I', self.data[self.ofs0 + 4 * i:self.ofs0 + 4 * i + 4])[0]
        if o & 0x80000000:
            k = self.ofs64 + 8 * (o & 0x7fffffff)
            if k + 8 > len(self.data):
                raise BadPack('bad offset')
            o = struct.unpack('!Q', self.data[k:k + 8])[0]
        return o

    def find(self, oid):
        lo = self.fan[oid[0] - 1] if oid[0] else 0
        hi = self.fan[oid[0]]
        d, s = self.data, self.sha0
        while lo < hi:
            m = (lo + hi) // 2
            x = d[s + 20 * m:s + 20 * m + 20]
            if x < oid:
                lo = m + 1
            elif x > oid:
                hi = m
            else:
                return m
        return None

    def packsum(self):
        k = self.ofs64 + 8 * sum(1 for i in range(self.n)
                                 if self.data[self.ofs0 + 4 * i] & 0x80)
        return self.data[k:k + 20]

    def check(self):
        return hashlib.sha1(self.data[:-20]).digest() == self.data[-20:]


def parse_obj_header(b, off):
    """(type name, size, header length)."""
    c = b[off]
    t = (c >> 4) & 7
    size = c & 15
    shift = 4
    n = 1
    while c & 0x80:
        c = b[off + n]
        n += 1
        size |= (c & 0x7f) << shift
        shift += 7
    if t not in TYPES:
        raise BadPack(f'object type {t}')
    return TYPES[t], size, n


def unpack_at(data, off):
    """(type, content, end offset) of the object at off in a pack."""
    try:
        t, size, h = parse_obj_header(data, off)
        d = zlib.decompressobj()
        out = d.decompress(bytes(data[off + h:]))
        if not d.eof or len(out) != size:
            raise BadPack('truncated object')
        end = len(data) - len(d.unused_data)
    except (zlib.error, IndexError) as ex:
        raise BadPack(str(ex)) from None
    return t, out, end


def oid_of(t, content):
    return hashlib.sha1(t + b' %d\0' % len(content) + content).digest()


class ODB:
    def __init__(self, gitdir):
        self.dir = gitdir
        self.packs = {} # stem -> [Idx, fd]
        self.bad = set() # not what their index says
        self.scanned = False

    def valid(self, idx, fd):
        h = pread_full(fd, 12, 0)
        if len(h) < 12 or h[:4] != b'PACK' or h[4:8] not in (b'\0\0\0\2', b'\0\0\0\3') or struct.unpack('!I', h[8:])[0] != idx.n:
            return False
        size = X.fstat(fd).st_size
        return size >= 32 and pread_full(fd, 20, size - 20) == idx.data[-40:-20]

    def scan(self):
        d = self.dir + b'/objects/pack'
        try:
            names = X.listdir(d)
        except OSError:
            names = []
        for n in sorted(names):
            if n.endswith(b'.idx'):
                stem = n[:-4]
                if stem in self.packs:
                    continue
                if stem + b'.pack' not in names:
                    continue
                try:
                    idx = Idx(slurp(d + b'/' + n))
                except (BadPack, OSError):
                    continue # (git is as quiet about one that it cannot read)
                self.packs[stem] = [idx, None]
        self.scanned = True

    def _find_in(self, oid, skip=()):
        for stem in sorted(self.packs):
            if stem in skip:
                continue
            idx, fd = self.packs[stem]
            i = idx.find(oid)
            if i is not None:
                if fd is None:
                    try:
                        fd = X.open_(self.dir + b'/objects/pack/' + stem + b'.pack', O_RDONLY)
                    except FileNotFoundError:
                        del self.packs[stem]
                        return self._find_in(oid, skip)
                    except OSError:
                        continue # 'missing', to git, with exit status 0
                    self.packs[stem][1] = fd
                    if not self.valid(idx, fd):
                        self.bad.add(stem)
                if stem in self.bad:
                    continue
                return stem, fd, idx.offset(i)
        return None

    def locate(self, oid, skip=()):
        if not self.scanned:
            self.scan()
        r = self._find_in(oid, skip)
        if r is None:
            self.scan()
            r = self._find_in(oid, skip)
        return r

    def loose(self, oid):
        h = hexlify(oid)
        try:
            z = slurp(self.dir + b'/objects/' + h[:2] + b'/' + h[2:])
        except OSError:
            return None
        try:
            b = zlib.decompress(z)
        except zlib.error:
            raise BadPack('loose') from None
        head, _, body = b.partition(b'\0')
        return head.split()[0], body

    def exists(self, oid):
        return self.locate(oid) is not None or self.loose(oid) is not None

    def info(self, oid):
        skip = set()
        while True:
            r = self.locate(oid, skip)
            if r is None:
                l = self.loose(oid)
                if l is not None:
                    return l[0], len(l[1])
                return None
            stem, fd, off = r
            b = pread_full(fd, 32, off)
            try:
                t, size, _ = parse_obj_header(b, 0)
                return t, size
            except (BadPack, IndexError):
                skip.add(stem)

    def get(self, oid, verify=False):
        """(type, content), None if missing; BadPack if only corrupt copies exist."""
        bad = None
        skip = set()
        while True:
            r = self.locate(oid, skip)
            if r is None:
                l = self.loose(oid)
                if l is not None:
                    return l
                if bad is not None:
                    raise bad
                return None
            stem, fd, off = r
            try:
                # read progressively
                n = 65536
                while True:
                    b = pread_full(fd, n, off)
                    try:
                        t, c, _ = unpack_at(b, 0)
                        break
                    except BadPack:
                        if len(b) < n:
                            raise
                        n *= 4
                if verify and oid_of(t, c) != oid:
                    raise BadPack('hash mismatch')
                return t, c
            except BadPack as ex:
                bad = ex
                skip.add(stem)


# ---------------------------------------------------------------- refs

def read_refs(gitdir):
    """All refs, {name: hex}."""
    res = {}
    try:
        for l in slurp(gitdir + b'/packed-refs').splitlines():
            if l and not l.startswith((b'#', b'^')):
                h, _, n = l.partition(b' ')
                res[n] = h
    except FileNotFoundError:
        pass
    def walk(d):
        try:
            names = X.listdir(gitdir + b'/' + d)
        except (FileNotFoundError, NotADirectoryError):
            return
        for n in sorted(names):
            p = d + b'/' + n
            if n.endswith(b'.lock'):
                continue
            try:
                st = X.stat_(gitdir + b'/' + p)
            except FileNotFoundError:
                continue
            if stat.S_ISDIR(st.st_mode):
                walk(p)
            else:
                try:
                    h = slurp(gitdir + b'/' + p).strip()
                except FileNotFoundError:
                    continue
                if len(h) == 40:
                    res[p] = h
    walk(b'refs')
    return res


def resolve_name(gitdir, name):
    """Hex id for a revision name or None."""
    if len(name) == 40:
        try:
            unhexlify(name)
            return name.lower()
        except ValueError:
            pass
    if b'..' in name or name.startswith(b'/') or b'\0' in name or b':' in name or b'^' in name \
       or b'~' in name or b'@{' in name:
        return None
    refs = read_refs(gitdir)
    if name == b'HEAD':
        try:
            h = slurp(gitdir + b'/HEAD').strip()
        except FileNotFoundError:
            return None
        return refs.get(h[5:].strip()) if h.startswith(b'ref:') else h
    for pre in (b'', b'refs/', b'refs/tags/', b'refs/heads/', b'refs/remotes/'):
        if pre + name in refs:
            return refs[pre + name]
    if 4 <= len(name) < 40 and not name.strip(b'0123456789abcdefABCDEF'):
        # an abbreviated id
        odb = ODB(gitdir)
        odb.scan()
        l = {o for x, _ in odb.packs.values() for o in x.oids() if hexlify(o).startswith(name.lower())}
        if len(l) == 1:
            return hexlify(l.pop())
    return None


def check_ref_name(n):
    bad = (b'..', b'//', b'@{', b'\\', b' ', b'~', b'^', b':', b'?', b'*', b'[', b'\x7f')
    if any(x in n for x in bad) or n.endswith((b'/', b'.', b'.lock')) or n.startswith(b'/') \
       or any(c < 32 for c in n):
        return False
    return all(c and not c.startswith(b'.') and not c.endswith(b'.lock') for c in n.split(b'/'))


def git_update_ref(gitdir, args, err):
    """Atomic and durable: git's own locking, fsync and rename are not under test."""
    w = G.world
    p = w.current
    delete = False
    if args[0] == b'-d':
        delete = True
        args = args[1:]
    ref = args[0]
    if not ref.startswith(b'refs/') or not (check_ref_name(ref) or delete and not ref.endswith(b'/')):
        raise Die(128, f'fatal: update_ref failed for ref {ref!r}: refusing to update ref with bad name')
    odb = ODB(gitdir)
    if delete:
        old = args[1] if len(args) > 1 else None
        new = None
    else:
        new = args[1]
        old = args[2] if len(args) > 2 else None
        new = resolve_name(gitdir, new)
        if new is None:
            raise Die(128, f'fatal: {args[1]!r}: not a valid SHA1')
    if old:
        o = resolve_name(gitdir, old)
        if o is None:
            raise Die(128, f'fatal: {old!r}: not a valid old SHA1')
        old = o
    if new is not None:
        try:
            got = odb.get(unhexlify(new), verify=True)
        except BadPack:
            got = None
        if got is None:
            raise Die(128, f'fatal: update_ref failed for ref {ref!r}: trying to write ref'
                           f' with nonexistent object {new!r}')
        if ref.startswith(b'refs/heads/') and got[0] != b'commit':
            raise Die(128, f'fatal: update_ref failed for ref {ref!r}: trying to write'
                           f' non-commit object {new!r} to branch')
    w.enter('update-ref', gitdir + b'/' + ref)
    # from here to the end no other process runs
    fs = p.fs
    base = fs.walk(gitdir, p.cwd)
    cur = _ref_now(fs, base, ref)
    if old is not None:
        if old == b'' or old == b'0' * 40:
            if cur is not None:
                raise Die(128, f'fatal: update_ref failed for ref {ref!r}: cannot lock ref:'
                               ' reference already exists')
        elif cur != old:
            raise Die(1 if delete else 128, f'error: cannot lock ref {ref!r}: is at {cur!r} but expected {old!r}')
    if delete:
        if cur is None and old:
            raise Die(1, f'error: cannot lock ref {ref!r}: unable to resolve reference')
        if cur is None and any(ref.startswith(n + b'/') or n.startswith(ref + b'/') for n in read_refs_raw(fs, base)):
            raise Die(1, f'error: cannot lock ref {ref!r}: part of it exists')
        if cur is not None:
            _ref_remove(fs, base, ref, w)
        w.refs_changed += 1
        return
    for n in read_refs_raw(fs, base):
        if n.startswith(ref + b'/') or ref.startswith(n + b'/'):
            raise Die(128, f'fatal: update_ref failed for ref {ref!r}: {n!r} exists')
    d = base
    comps = ref.split(b'/')
    for c in comps[:-1]:
        n = d.entries.get(c)
        if n is None:
            n = fs.create(d, c, stat.S_IFDIR | 0o755)
            fs.fsync_dir(d, w.personality)
        d = n
    leaf = d.entries.get(comps[-1])
    if leaf is not None and leaf.entries is not None:
        # only empty directories can be left here
        rm_empty(fs, d, comps[-1], leaf)
    tmp = fs.create(d, comps[-1] + b'.lock', stat.S_IFREG | 0o644)
    try:
        fs.write(tmp, 0, new + b'\n')
        if len(tmp.data) != 41:
            raise perr(errno.ENOSPC)
    except OSError:
        fs.unlink(d, comps[-1] + b'.lock', tmp)
        raise
    fs.fsync_file(tmp, w.personality)
    fs.rename(d, comps[-1] + b'.lock', tmp, d, comps[-1], d.entries.get(comps[-1]))
    fs.fsync_dir(d, w.personality)
    w.refs_changed += 1


def rm_empty(fs, d, name, i):
    for n, c in list(i.entries.items()):
        rm_empty(fs, i, n, c)
    fs.rmdir(d, name, i)

def read_refs_raw(fs, base):
    res = {}
    pr = base.entries.get(b'packed-refs')
    if pr is not None:
        for l in bytes(pr.data).splitlines():
            if l and not l.startswith((b'#', b'^')):
                h, _, n = l.partition(b' ')
                res[n] = h
    def walk(i, pre):
        for n, c in sorted(i.entries.items()):
            if c.entries is not None:
                walk(c, pre + n + b'/')
            elif c.data is not None and not n.endswith(b'.lock'):
                h = bytes(c.data).strip()
                res[pre + n] = h
    r = base.entries.get(b'refs')
    if r is not None:
        walk(r, b'refs/')
    return res

def _ref_now(fs, base, ref):
    return read_refs_raw(fs, base).get(ref)

def _ref_remove(fs, base, ref, w):
    pr = base.entries.get(b'packed-refs')
    if pr is not None:
        keep = [l for l in bytes(pr.data).splitlines(True) if not l.strip().endswith(b' ' + ref)]
        new = fs.create(base, b'packed-refs.new', stat.S_IFREG | 0o644)
        fs.write(new, 0, b''.join(keep))
        fs.fsync_file(new, w.personality)
        fs.rename(base, b'packed-refs.new', new, base, b'packed-refs', pr)
        fs.fsync_dir(base, w.personality)
    d = base
    chain = []
    for c in ref.split(b'/')[:-1]:
        n = d.entries.get(c)
        if n is None:
            return
        chain.append((d, c, n))
        d = n
    leaf = d.entries.get(ref.split(b'/')[-1])
    if leaf is not None:
        fs.unlink(d, ref.split(b'/')[-1], leaf)
        fs.fsync_dir(d, w.personality)
    for par, c, i in reversed(chain[2:]):
        if not i.entries:
            fs.rmdir(par, c, i)
            fs.fsync_dir(par, w.personality)


# ---------------------------------------------------------------- git

def parse_config(data):
    """[(section.sub.key, value)] in order; section and key lower case."""
    res = []
    sec = b''
    for l in data.split(b'\n'):
        l = l.strip()
        if not l or l[:1] in b'#;':
            continue
        if l.startswith(b'['):
            s = l[1:l.index(b']')] if b']' in l else l[1:]
            if b'"' in s:
                a, _, b = s.partition(b'"')
                sec = a.strip().lower() + b'.' + b[:b.rindex(b'"')].replace(b'\\"', b'"').replace(b'\\\\', b'\\')
            else:
                sec = s.strip().lower()
            continue
        k, eq, v = l.partition(b'=')
        v = v.strip() if eq else b'true'
        if v.startswith(b'"') and v.endswith(b'"') and len(v) > 1:
            v = v[1:-1].replace(b'\\"', b'"').replace(b'\\\\', b'\\')
        res.append((sec + b'.' + k.strip().lower(), v))
    return res

def norm_opt(o):
    a, _, rest = o.partition(b'.')
    b, _, c = rest.rpartition(b'.')
    return a.lower() + b'.' + (b + b'.' if b else b'') + c.lower()

def set_config(data, opt, val):
    a, _, rest = opt.partition(b'.')
    b, _, c = rest.rpartition(b'.')
    if not all(32 <= ch < 127 for ch in val):
        raise HarnessError('config value')
    q = b'"%s"' % val.replace(b'\\', b'\\\\').replace(b'"', b'\\"') \
        if any(ch in val for ch in b'#;"\\') or val != val.strip() else val
    head = b'[%s "%s"]' % (a, b) if b else b'[%s]' % a
    lines = data.split(b'\n')
    if lines and not lines[-1]:
        lines.pop()
    out = []
    cur = None
    done = False
    last_in = None
    for l in lines:
        s = l.strip()
        if s.startswith(b'['):
            cur = s
        elif cur is not None and cur.lower() == head.lower() and \
             s.partition(b'=')[0].strip().lower() == c.lower() and not done:
            l = b'\t%s = %s' % (c, q)
            done = True
        out.append(l)
        if cur is not None and cur.lower() == head.lower():
            last_in = len(out)
    if not done:
        line = b'\t%s = %s' % (c, q)
        if last_in is not None:
            out.insert(last_in, line)
        else:
            out += [head, line]
    return b'\n'.join(out) + b'\n'


def replace_file(path, data):
    tmp = path + b'.lock'
    fd = X.open_(tmp, O_WRONLY | O_CREAT | O_EXCL, 0o644)
    try:
        put(fd, data)
        X.fsync(fd)
    except OSError:
        X.close(fd)
        X.unlink(tmp)
        raise
    X.close(fd)
    X.rename(tmp, path)


def git_config(gitdir, args):
    if args[0] == b'--file':
        path = args[1]
        if args[2:4] != [b'--null', b'--get']:
            raise HarnessError(f'git config {args!r}')
        try:
            data = slurp(path)
        except (FileNotFoundError, NotADirectoryError):
            raise Die(1)
        want = norm_opt(args[4])
        val = None
        for k, v in parse_config(data):
            if k == want:
                val = v
        if val is None:
            raise Die(1)
        put(1, val + b'\0')
        return
    if len(args) == 2:
        path = gitdir + b'/config'
        try:
            data = slurp(path)
        except FileNotFoundError:
            data = b''
        replace_file(path, set_config(data, args[0], args[1]))
        return
    raise HarnessError(f'git config {args!r}')


def git_show_ref(gitdir, args):
    heads = tags = False
    while args and args[0].startswith(b'--'):
        a = args.pop(0)
        if a == b'--heads':
            heads = True
        elif a == b'--tags':
            tags = True
        elif a == b'--':
            break
        else:
            raise HarnessError(f'git show-ref {a!r}')
    refs = read_refs(gitdir)
    odb = ODB(gitdir)
    out = []
    try:
        for n in sorted(refs):
            if (heads or tags) and not ((heads and n.startswith(b'refs/heads/'))
                                        or (tags and n.startswith(b'refs/tags/'))):
                continue
            if args and not any(n == p or n.endswith(b'/' + p) for p in args):
                continue
            if not odb.exists(unhexlify(refs[n])):
                raise Die(128, f'fatal: git show-ref: bad ref {n!r} ({refs[n]!r})')
            out.append(refs[n] + b' ' + n + b'\n')
    finally:
        put(1, b''.join(out))
    if not out:
        raise Die(1)


def parse_commit_raw(c):
    tree, parents, adate, cdate = None, [], 0, 0
    head, _, msg = c.partition(b'\n\n')
    for l in head.split(b'\n'):
        if l.startswith(b'tree '):
            tree = l[5:45]
        elif l.startswith(b'parent '):
            parents.append(l[7:47])
        elif l.startswith(b'author '):
            adate = int(l.rsplit(b' ', 2)[1])
        elif l.startswith(b'committer '):
            cdate = int(l.rsplit(b' ', 2)[1])
    return tree, parents, adate, cdate


def git_rev_list(gitdir, args):
    fmt = None
    refs = []
    for a in args:
        if a.startswith(b'--pretty=format:'):
            fmt = a[16:]
        elif a == b'--':
            break
        elif a.startswith(b'-'):
            raise HarnessError(f'git rev-list {a!r}')
        else:
            refs.append(a)
    odb = ODB(gitdir)
    def load(h):
        try:
            r = odb.get(unhexlify(h), verify=True)
        except BadPack:
            r = None
        if r is None:
            raise Die(128, f'fatal: bad object {h!r}')
        t, c = r
        n = 0
        while t == b'tag' and n < 10:
            h = c[7:47]
            r = odb.get(unhexlify(h))
            if r is None:
                raise Die(128, 'fatal: bad tag')
            t, c = r
            n += 1
        return h, t, c
    heap = []
    seen = set()
    order = 0
    def push(h):
        nonlocal order
        h2, t, c = load(h)
        if t != b'commit':
            return
        if h2 in seen:
            return
        seen.add(h2)
        info = parse_commit_raw(c)
        heapq.heappush(heap, (-info[3], order, h2, info))
        order += 1
    for r in refs:
        h = resolve_name(gitdir, r)
        if h is None:
            raise Die(128, f'fatal: bad revision {r!r}')
        push(h)
    buf = []
    try:
        while heap:
            _, _, h, (tree, parents, ad, cd) = heapq.heappop(heap)
            # parents are parsed before the commit is shown
            for q in parents:
                push(q)
            if fmt is None:
                buf.append(h + b'\n')
            else:
                s = fmt.replace(b'%T', tree).replace(b'%at', b'%d' % ad).replace(b'%ct', b'%d' % cd) \
                       .replace(b'%H', h).replace(b'%n', b'\n').replace(b'%P', b' '.join(parents))
                if b'%' in s:
                    raise HarnessError(f'rev-list format {fmt!r}')
                buf.append(b'commit ' + h + b'\n' + s + b'\n')
            if len(buf) > 50:
                put(1, b''.join(buf))
                buf = []
    finally:
        if not G.world.current.dead:
            put(1, b''.join(buf))


def git_cat_file(gitdir, args):
    mode = args[0]
    odb = ODB(gitdir)
    lines = Lines(0)
    while True:
        l = lines.next()
        if not l:
            return
        l = l.rstrip(b'\n')
        if mode == b'--batch-command':
            cmd, _, name = l.partition(b' ')
            if cmd not in (b'contents', b'info'):
                raise Die(128, f'fatal: unknown command: {l!r}')
            data = cmd == b'contents'
        elif mode == b'--batch':
            name, data = l, True
        elif mode == b'--batch-check':
            name, data = l, False
        else:
            raise HarnessError(f'git cat-file {args!r}')
        h = resolve_name(gitdir, name)
        if h is None:
            put(1, name + b' missing\n')
            continue
        oid = unhexlify(h)
        info = odb.info(oid)
        if info is None:
            put(1, name + b' missing\n')
            continue
        t, size = info
        if not data:
            put(1, b'%s %s %d\n' % (h, t, size))
            continue
        try:
            r = odb.get(oid)
        except BadPack as ex:
            put(1, b'%s %s %d\n' % (h, t, size))
            raise Die(128, f'fatal: packed object {h!r} is corrupt: {ex}')
        if r is None:
            put(1, name + b' missing\n')
            continue
        t, c = r
        put(1, b'%s %s %d\n' % (h, t, len(c)) + c + b'\n')


def git_init(gitdir):
    new = False
    for d in (b'', b'/refs', b'/refs/heads', b'/refs/tags', b'/objects', b'/objects/info',
              b'/objects/pack', b'/info'):
        try:
            X.mkdir(gitdir + d, 0o777)
        except FileExistsError:
            pass
    try:
        X.stat_(gitdir + b'/HEAD')
    except FileNotFoundError:
        new = True
        replace_file(gitdir + b'/HEAD', b'ref: refs/heads/main\n')
    try:
        data = slurp(gitdir + b'/config')
    except FileNotFoundError:
        data = b''
    d2 = data
    for k, v in ((b'core.repositoryformatversion', b'0'), (b'core.filemode', b'true'),
                 (b'core.bare', b'true')):
        if not any(x == k for x, _ in parse_config(d2)):
            d2 = set_config(d2, k, v)
    if d2 != data:
        replace_file(gitdir + b'/config', d2)
    put(1, (b'Initialized empty' if new else b'Reinitialized existing')
        + b' Git repository in ' + gitdir + b'/\n')


def git_verify_pack(args):
    if args[0] == b'--':
        args = args[1:]
    stem = args[0]
    try:
        try:
            idx = Idx(slurp(stem + b'.idx'))
            pack = slurp(stem + b'.pack')
        except FileNotFoundError:
            raise BadPack('missing') from None
        if not idx.check():
            raise BadPack('idx checksum')
        if len(pack) < 32 or pack[:8] != b'PACK\0\0\0\2':
            raise BadPack('pack header')
        if struct.unpack('!I', pack[8:12])[0] != idx.n:
            raise BadPack('count')
        if hashlib.sha1(pack[:-20]).digest() != pack[-20:] or pack[-20:] != idx.packsum():
            raise BadPack('pack checksum')
        for i in range(idx.n):
            t, c, end = unpack_at(pack, idx.offset(i))
            if oid_of(t, c) != idx.oid(i):
                raise BadPack('object hash')
    except BadPack as ex:
        raise Die(1, f'error: {stem!r}: {ex}')


def build_idx(pack):
    """Contents of the version 2 index for a pack (no deltas)."""
    if len(pack) < 32 or pack[:8] != b'PACK\0\0\0\2':
        raise BadPack('pack header')
    n = struct.unpack('!I', pack[8:12])[0]
    off = 12
    ents = []
    body = pack[:-20]
    for _ in range(n):
        t, c, end = unpack_at(body, off)
        ents.append((oid_of(t, c), zlib.crc32(pack[off:end]), off))
        off = end
    if off != len(body):
        raise BadPack('trailing garbage')
    if hashlib.sha1(body).digest() != pack[-20:]:
        raise BadPack('pack checksum')
    ents.sort()
    fan = [0] * 256
    for e in ents:
        fan[e[0][0]] += 1
    tot = 0
    for i in range(256):
        tot += fan[i]
        fan[i] = tot
    big = []
    ofs = []
    for e in ents:
        if e[2] > 0x7fffffff:
            ofs.append(0x80000000 | len(big))
            big.append(e[2])
        else:
            ofs.append(e[2])
    d = b'\377tOc\0\0\0\2' + struct.pack('!256I', *fan) + b''.join(e[0] for e in ents) \
        + b''.join(struct.pack('!I', e[1]) for e in ents) \
        + b''.join(struct.pack('!I', o) for o in ofs) \
        + b''.join(struct.pack('!Q', o) for o in big) + pack[-20:]
    return d + hashlib.sha1(d).digest()


def git_index_pack(args):
    path = args[0]
    try:
        pack = slurp(path)
        d = build_idx(pack)
    except (BadPack, FileNotFoundError) as ex:
        raise Die(128, f'fatal: {ex}')
    out = path[:-5] + b'.idx'
    fd = X.open_(out + b'.tmp', O_WRONLY | O_CREAT | O_TRUNC, 0o444)
    put(fd, d)
    X.fsync(fd)
    X.close(fd)
    X.rename(out + b'.tmp', out)
    put(1, hexlify(pack[-20:]) + b'\n')


def git_program(p):
    a = list(p.argv[1:])
    gitdir = p.environ.get(b'GIT_DIR', b'.git').rstrip(b'/')
    try:
        while a and a[0].startswith(b'-'):
            x = a.pop(0)
            if x == b'-c':
                a.pop(0)
            elif x == b'--version':
                put(1, b'git version 2.43.0\n')
                return 0
            elif x != b'--bare':
                raise HarnessError(f'git {p.argv!r}')
        cmd, args = a[0], a[1:]
        if cmd == b'config':
            git_config(gitdir, args)
        elif cmd == b'init':
            git_init(gitdir)
        elif cmd in (b'verify-pack', b'index-pack'):
            (git_verify_pack if cmd == b'verify-pack' else git_index_pack)(args)
        else:
            fs = p.fs
            ok = True
            for n in (b'/objects', b'/refs', b'/HEAD'):
                try:
                    X.stat_(gitdir + n)
                except (FileNotFoundError, NotADirectoryError):
                    ok = False
            if not ok:
                raise Die(128, f'fatal: not a git repository: {gitdir!r}')
            if cmd == b'show-ref':
                git_show_ref(gitdir, args)
            elif cmd == b'rev-list':
                git_rev_list(gitdir, args)
            elif cmd == b'update-ref':
                git_update_ref(gitdir, args, None)
            elif cmd == b'cat-file':
                git_cat_file(gitdir, args)
            elif cmd == b'reflog':
                pass
            else:
                raise HarnessError(f'git {p.argv!r}')
        return 0
    except Die as ex:
        if ex.msg:
            try:
                put(2, (ex.msg + '\n').encode())
            except OSError:
                pass
        return ex.code
    except KeyboardInterrupt:
        return 130
    except OSError as ex:
        if ex.errno == errno.EPIPE:
            p.finish(13)
            raise SimKilled()
        try:
            put(2, f'fatal: {ex}\n'.encode())
        except OSError:
            pass
        return 128


# ---------------------------------------------------------------- par2

PAR_MAGIC = b'PAR2SIM\0'

def _blocks(data):
    bs = max(4, -(-len(data) // 2000))
    bs = -(-bs // 4) * 4
    return bs, [hashlib.md5(data[i:i + bs]).digest() for i in range(0, max(1, len(data)), bs)]

def _packet(kind, body):
    b = kind + struct.pack('!I', len(body)) + body
    return PAR_MAGIC + hashlib.md5(b).digest() + b

def _packets(data):
    """Valid packets found anywhere in data: [(kind, body)]."""
    res = []
    i = data.find(PAR_MAGIC)
    while i >= 0:
        md = data[i + 8:i + 24]
        k = data[i + 24:i + 28]
        n = struct.unpack('!I', data[i + 28:i + 32])[0] if len(data) >= i + 32 else None
        if n is not None and n <= len(data):
            b = data[i + 24:i + 32 + n]
            if len(b) == 8 + n and hashlib.md5(b).digest() == md:
                res.append((k, b[8:]))
        i = data.find(PAR_MAGIC, i + 1)
    return res

def par2_create(p, base, name, nrec):
    data = slurp(name)
    if not data:
        raise Die(3) # par2 refuses empty files
    bs, sums = _blocks(data)
    head = json.dumps({'name': name.decode('latin-1'), 'size': len(data), 'bs': bs,
                       'md5': hashlib.md5(data).hexdigest()}).encode()
    main = _packet(b'MAIN', head) + _packet(b'SUMS', b''.join(sums))
    G.world.par2_store[hashlib.md5(data).hexdigest()] = data
    X_write_new(base + b'.par2', main)
    out = []
    for i in range(nrec):
        out.append(_packet(b'RECV', struct.pack('!I', i) + hashlib.sha256(data + b'%d' % i).digest()[:24]))
    X_write_new(base + b'.vol000+%d.par2' % nrec, b''.join(out[:nrec // 2]) + main + b''.join(out[nrec // 2:]))

def X_write_new(path, data):
    fd = X.open_(path, O_WRONLY | O_CREAT | O_EXCL, 0o644)
    try:
        while data:
            n = X.write(fd, data[:65536])
            data = data[n:]
    finally:
        X.close(fd)

def par2_load(base):
    if base.endswith(b'.par2'):
        base = base[:-5]
    d, leaf = (base.rsplit(b'/', 1) + [None])[:2] if b'/' in base else (b'.', base)
    main = sums = None
    recv = set()
    found = False
    for n in sorted(X.listdir(d)):
        if n == leaf + b'.par2' or (n.startswith(leaf + b'.vol') and n.endswith(b'.par2')):
            found = True
            for k, b in _packets(slurp(d + b'/' + n)):
                if k == b'MAIN':
                    main = json.loads(b)
                elif k == b'SUMS':
                    sums = b
                elif k == b'RECV':
                    recv.add(bytes(b))
    if not found:
        raise Die(3)
    if main is None or sums is None:
        raise Die(4, 'Main packet not found.')
    return d, main, sums, recv

def par2_state(d, main, sums):
    name = main['name'].encode('latin-1')
    try:
        data = slurp(d + b'/' + name)
    except FileNotFoundError:
        return name, None, len(sums) // 16
    if len(data) == main['size'] and hashlib.md5(data).hexdigest() == main['md5']:
        return name, data, 0
    bs = main['bs']
    have = set()
    want = [sums[i:i + 16] for i in range(0, len(sums), 16)]
    # aligned search only (the real tool also finds shifted blocks)
    ok = 0
    for k, m in enumerate(want):
        if hashlib.md5(data[k * bs:(k + 1) * bs]).digest() == m:
            ok += 1
    # damage that leaves every block good is in the length
    return name, data, max(len(want) - ok, 0 if len(data) != main['size'] else 1)

def par2_program(p):
    a = list(p.argv[1:])
    try:
        if a and a[0] == b'--help':
            return 0
        action = a.pop(0)
        nrec = 200
        pos = []
        while a:
            x = a.pop(0)
            if x == b'--':
                pos += a
                break
            if x in (b'-q', b'-qq', b'-t1', b'-n1'):
                continue
            if x.startswith(b'-c'):
                nrec = int(x[2:])
                continue
            if x.startswith(b'-'):
                raise HarnessError(f'par2 {p.argv!r}')
            pos.append(x)
        if action == b'create':
            if len(pos) == 1:
                par2_create(p, pos[0], pos[0], 1)
            else:
                par2_create(p, pos[0], pos[1], nrec)
            return 0
        d, main, sums, recv = par2_load(pos[0])
        name, data, bad = par2_state(d, main, sums)
        intact = data is not None and len(data) == main['size'] \
            and hashlib.md5(data).hexdigest() == main['md5']
        if action in (b'verify', b'v'):
            if intact:
                return 0
            return 1 if bad <= len(recv) else 2
        if action in (b'repair', b'r'):
            if intact:
                return 0
            if bad > len(recv):
                return 2
            good = G.world.par2_store.get(main['md5'])
            if good is None:
                return 2
            path = d + b'/' + name
            if data is not None:
                k = 1
                while True:
                    try:
                        X.lstat(path + b'.%d' % k)
                        k += 1
                    except FileNotFoundError:
                        break
                X.rename(path, path + b'.%d' % k)
            X_write_new(path, good)
            return 0
        raise HarnessError(f'par2 {p.argv!r}')
    except Die as ex:
        return ex.code
    except KeyboardInterrupt:
        return 130
    except OSError:
        return 6


# ---------------------------------------------------------------- ssh

def ssh_program(p):
    """ssh [-p port] [user@]host -- COMMAND: runs bup on another simulated host."""
    w = G.world
    a = list(p.argv[1:])
    if a[0] == b'-p':
        a = a[2:]
    dest, dd, cmd = a
    if dd != b'--':
        raise HarnessError(f'ssh {p.argv!r}')
    import shlex
    sh = shlex.split(cmd.decode())
    if sh[:2] != ['sh', '-c']:
        raise HarnessError(f'ssh {p.argv!r}')
    words = shlex.split(sh[2])
    env = {}
    while '=' in words[0]:
        k, _, v = words.pop(0).partition('=')
        env[k.encode()] = v.encode()
    host = w.hosts.get(dest.rpartition(b'@')[2].decode())
    w.enter('connect', None, dest)
    if host is None or host.down:
        put(2, b'ssh: connect to host: No route to host\n')
        return 255
    fds = {n: p.fds[n][0] for n in (0, 1, 2)}
    env.update(host.env)
    home = env.get(b'HOME', b'/')
    cwd = host.fs.walk(home, host.fs.root)
    r = w.spawn(host, [x.encode() for x in words], env=env, cwd=cwd, cwd_path=home, fds=fds)
    r.aux['remote'] = True
    pipes = [fds[n].pipe for n in (0, 1) if fds[n].kind == 'pipe']
    if fds[2].kind == 'pipe':
        pipes.append(fds[2].pipe)
    link = Link(w, p, r, pipes)
    w.links.append(link)
    if w.link_hook is not None:
        w.link_hook(link)
    p.aux['on_death'] = lambda: link.cut()
    for n in (0, 1):
        if n in p.fds:
            p.fds.pop(n)[0].decref()
    w.block(p, lambda: r.dead or link.broken, on='ssh')
    if link.broken:
        if link.error_delay:
            w.block(p, None, until=w.now + link.error_delay, on='ssh timeout')
        return 255
    p.aux.pop('on_death', None)
    if r.status & 127:
        return 255
    return r.status >> 8


class Link:
    """The connection between two hosts: latency, and a possible break."""
    def __init__(self, w, local, remote, pipes):
        self.w, self.local, self.remote, self.pipes = w, local, remote, pipes
        self.broken = False
        self.error_delay = 0
        lat = w.config.get('latency')
        if lat:
            for q in pipes:
                rng = w.rng_frag
                q.latency = lambda: int(rng.expovariate(1) * lat)

    def cut(self):
        if not self.broken:
            self.broken = True
            self.w.trace('cut', self.local)
            for q in self.pipes:
                q.brk(self.w.rng_frag)


def install(w):
    w.programs.update({b'bup': loader.bup_program, b'git': git_program, b'par2': par2_program,
                       b'ssh': ssh_program, b'harness': loader.harness_program, b'false': lambda p: 127})
    w.par2_store = {}
    w.links = []
    w.link_hook = None
    def connected(p, host, pipes):
        link = Link(w, p, None, pipes)
        w.links.append(link)
        if w.link_hook is not None:
            w.link_hook(link)
    w.connected = connected
    w.refs_changed = 0
    w.flocks = {}
