"""Simulated POSIX file system with a volatile/durable distinction.

Every inode keeps its current (page-cache) state and, for files, the content
that was last made durable; every directory keeps its durable entries, plus a
file-system wide list of directory operations that are not yet durable.

Crash model ("what survives a power failure"):
  * file data: for each file, whatever was last fsynced, overlaid with a
    seeded choice of not-yet-synchronised pages (and of the new size);
  * directory operations: per directory, a prefix (in order) of the pending
    operations survives, independently for each directory; a rename is atomic.
    fsync of a directory makes every operation touching it durable.
    With personality 'journal' the surviving operations are a prefix of the
    whole file system's history (as on a metadata-journaling file system), and
    fsync of anything commits everything up to the last change of that inode.
"""

import errno, stat
from errno import (EACCES, EBADF, EEXIST, EINVAL, EISDIR, ELOOP, ENOENT, ENOTDIR,
                   ENOTEMPTY, EPERM, EXDEV, ENAMETOOLONG, EMLINK)

PAGE = 4096


class Inode:
    __slots__ = ('ino', 'mode', 'uid', 'gid', 'atime', 'mtime', 'ctime',
                 'nlink', 'data', 'entries', 'target', 'rdev', 'xattrs',
                 'opens', 'parent', 'd_data', 'd_entries', 'attr', 'dev')

    def __init__(self, ino, mode, now):
        self.ino = ino
        self.mode = mode
        self.uid = self.gid = 0
        self.atime = self.mtime = self.ctime = now
        self.nlink = 0
        self.data = None
        self.entries = None
        self.target = None
        self.rdev = 0
        self.xattrs = None
        self.attr = 0
        self.opens = 0
        self.parent = None
        self.d_data = None
        self.d_entries = None
        self.dev = None

    def isdir(self): return self.entries is not None
    def isreg(self): return self.data is not None
    def islnk(self): return self.target is not None

    def size(self):
        if self.data is not None:
            return len(self.data)
        if self.target is not None:
            return len(self.target)
        if self.entries is not None:
            return 4096
        return 0


class MetaOp:
    __slots__ = ('seq', 'sets')

    def __init__(self, seq, sets):
        self.seq = seq
        self.sets = sets # list of (dir inode, name, inode or None)


def err(no, path=None):
    import os as real_os
    if path is None:
        return OSError(no, real_os.strerror(no))
    return OSError(no, real_os.strerror(no), path)


def _torn_in_place(dur, cur, rng, gap=160):
    out = bytearray(dur)
    p = rng.choice((.1, .5, .9))
    n = len(cur)
    units = [] # [page start, page end) ranges that go together
    prev = None # offset of the last changed byte
    for off in range(0, n, PAGE):
        e = min(off + PAGE, n)
        if dur[off:e] == cur[off:e]:
            continue
        first = next(j for j in range(off, e) if dur[j] != cur[j])
        if units and prev is not None and units[-1][1] == off and first - prev < gap:
            units[-1][1] = e
        else:
            units.append([off, e])
        prev = next(j for j in range(e - 1, off - 1, -1) if dur[j] != cur[j])
    for a, b in units:
        if rng.random() < p:
            out[a:b] = cur[a:b]
    return bytes(out)


class FS:
    def __init__(self, *, gran=1, ino_policy='lowest', dev=0x801, first_ino=2):
        self.gran = gran # timestamp granularity in ns
        self.ino_policy = ino_policy
        self.dev = dev
        self.next_ino = first_ino
        self.free_inos = []
        self.pending = []
        self.seq = 0
        self.muts = 0 # changes of volatile or durable state
        self.capacity = None # bytes of file data, None is unlimited
        self.used = 0
        self.now = lambda: 0
        self.root = self._new(stat.S_IFDIR | 0o755)
        self.root.entries = {}
        self.root.d_entries = {}
        self.root.parent = self.root
        self.root.nlink = 2

    # ---- inodes

    def stamp(self):
        t = self.now()
        return t - t % self.gran

    def _new(self, mode):
        if self.ino_policy == 'lowest' and self.free_inos:
            self.free_inos.sort()
            ino = self.free_inos.pop(0)
        elif self.ino_policy == 'last' and self.free_inos:
            ino = self.free_inos.pop()
        else:
            ino = self.next_ino
            self.next_ino += 1
        i = Inode(ino, mode, self.stamp())
        k = stat.S_IFMT(mode)
        if k == stat.S_IFDIR:
            i.entries = {}
            i.d_entries = {}
        elif k == stat.S_IFREG:
            i.data = bytearray()
        return i

    def maybe_free(self, i):
        if i.nlink <= 0 and i.opens <= 0:
            if i.data is not None:
                self.used -= len(i.data)
            self.free_inos.append(i.ino)

    # ---- directory operations (durability bookkeeping)

    def _apply(self, sets):
        self.muts += 1
        self.seq += 1
        self.pending.append(MetaOp(self.seq, sets))
        for d, name, ino in sets:
            if ino is None:
                d.entries.pop(name, None)
            else:
                d.entries[name] = ino

    def _persist(self, ops):
        self.muts += 1
        for op in ops:
            for d, name, ino in op.sets:
                if ino is None:
                    d.d_entries.pop(name, None)
                else:
                    d.d_entries[name] = ino
        gone = set(id(op) for op in ops)
        self.pending = [op for op in self.pending if id(op) not in gone]

    def fsync_dir(self, d, personality):
        if personality == 'journal':
            last = 0
            for op in self.pending:
                if any(x[0] is d for x in op.sets):
                    last = op.seq
            self._persist([op for op in self.pending if op.seq <= last])
            return
        take = [op for op in self.pending if any(x[0] is d for x in op.sets)]
        # ordered within each directory: everything earlier in a directory
        # that a taken operation touches goes too
        changed = True
        while changed:
            changed = False
            lim = {}
            for op in take:
                for x in op.sets:
                    k = id(x[0])
                    if lim.get(k, 0) < op.seq:
                        lim[k] = op.seq
            t2 = [op for op in self.pending
                  if any(op.seq <= lim.get(id(x[0]), 0) for x in op.sets)]
            if len(t2) != len(take):
                take, changed = t2, True
        self._persist(take)

    def fsync_file(self, i, personality):
        self.muts += 1
        if i.data is not None:
            i.d_data = bytes(i.data)
        if personality == 'journal':
            last = 0
            for op in self.pending:
                if any(x[2] is i for x in op.sets):
                    last = op.seq
            self._persist([op for op in self.pending if op.seq <= last])

    def sync_all(self):
        seen = set()
        def visit(i):
            if id(i) in seen:
                return
            seen.add(id(i))
            if i.data is not None:
                i.d_data = bytes(i.data)
            elif i.entries is not None:
                i.d_entries = dict(i.entries)
                for c in i.entries.values():
                    visit(c)
        visit(self.root)
        self.pending = []

    def sync_tree(self, path):
        """Make everything below path durable."""
        dirs = set()
        for p, i in self.tree(path):
            if i.data is not None:
                i.d_data = bytes(i.data)
            elif i.entries is not None:
                dirs.add(id(i))
                i.d_entries = dict(i.entries)
        for op in self.pending:
            op.sets = [x for x in op.sets if id(x[0]) not in dirs]
        self.pending = [op for op in self.pending if op.sets]

    # ---- path walking

    def walk(self, path, cwd, *, follow=True, cred=None, want_parent=False, depth=0,
             must_dir=False):
        """Return the inode for path, or with want_parent (dir, name, inode or None)."""
        if not path:
            raise err(ENOENT, path)
        orig = path
        cur = self.root if path.startswith(b'/') else cwd
        if cur.nlink == 0 and not path.startswith(b'/'):
            raise err(ENOENT, path)
        parts = [p for p in path.split(b'/') if p]
        trailing = path.endswith(b'/')
        if not parts:
            if want_parent:
                return cur, b'.', cur
            return cur
        i = 0
        while i < len(parts):
            name = parts[i]
            last = i == len(parts) - 1
            if cur.entries is None:
                raise err(ENOTDIR, orig)
            if len(name) > 255:
                raise err(ENAMETOOLONG, orig)
            if cred is not None and cred.uid != 0:
                self.access(cur, 1, cred, orig)
            if name == b'.':
                nxt = cur
            elif name == b'..':
                nxt = cur.parent
            else:
                nxt = cur.entries.get(name)
            if last and want_parent:
                if nxt is not None and nxt.target is not None and (follow or trailing):
                    if depth > 20:
                        raise err(ELOOP, orig)
                    return self.walk(nxt.target, cur, follow=True, cred=cred,
                                     want_parent=True, depth=depth + 1)
                if trailing and nxt is not None and nxt.entries is None:
                    raise err(ENOTDIR, orig)
                return cur, name, nxt
            if nxt is None:
                raise err(ENOENT, orig)
            if nxt.target is not None and (not last or follow or trailing):
                depth += 1
                if depth > 20:
                    raise err(ELOOP, orig)
                tparts = [p for p in nxt.target.split(b'/') if p]
                if nxt.target.startswith(b'/'):
                    cur = self.root
                parts = tparts + parts[i + 1:]
                i = 0
                if not parts:
                    return cur
                continue
            cur = nxt
            i += 1
        if (trailing or must_dir) and cur.entries is None:
            raise err(ENOTDIR, orig)
        return cur

    def access(self, i, want, cred, path=None):
        if cred is None or cred.uid == 0:
            return
        if cred.uid == i.uid:
            m = (i.mode >> 6) & 7
        elif i.gid == cred.gid or i.gid in cred.groups:
            m = (i.mode >> 3) & 7
        else:
            m = i.mode & 7
        if (m & want) != want:
            raise err(EACCES, path)

    # ---- operations on inodes

    def create(self, d, name, mode, *, cred=None, target=None, rdev=0):
        if d.nlink == 0:
            raise err(ENOENT, name)
        self.access(d, 3, cred, name)
        i = self._new(mode)
        if cred is not None:
            i.uid, i.gid = cred.uid, cred.gid
        if target is not None:
            i.target = target
        i.rdev = rdev
        if i.entries is not None:
            i.parent = d
            i.nlink = 2
            d.nlink += 1
        else:
            i.nlink = 1
        self._apply([(d, name, i)])
        d.mtime = d.ctime = self.stamp()
        return i

    def link(self, i, d, name, cred=None):
        if i.entries is not None:
            raise err(EPERM, name)
        self.access(d, 3, cred, name)
        i.nlink += 1
        i.ctime = self.stamp()
        self._apply([(d, name, i)])
        d.mtime = d.ctime = self.stamp()

    def unlink(self, d, name, i, cred=None):
        self.access(d, 3, cred, name)
        if i.entries is not None:
            raise err(EISDIR, name)
        self._apply([(d, name, None)])
        i.nlink -= 1
        i.ctime = d.mtime = d.ctime = self.stamp()
        self.maybe_free(i)

    def rmdir(self, d, name, i, cred=None):
        self.access(d, 3, cred, name)
        if i.entries is None:
            raise err(ENOTDIR, name)
        if i.entries:
            raise err(ENOTEMPTY, name)
        if i is self.root:
            raise err(EINVAL, name)
        self._apply([(d, name, None)])
        i.nlink = 0
        d.nlink -= 1
        d.mtime = d.ctime = self.stamp()
        self.maybe_free(i)

    def rename(self, sd, sname, si, dd, dname, di, cred=None):
        self.access(sd, 3, cred, sname)
        self.access(dd, 3, cred, dname)
        if si is di:
            return
        if si.entries is not None:
            p = dd
            while p is not self.root:
                if p is si:
                    raise err(EINVAL, sname)
                p = p.parent
            if di is not None:
                if di.entries is None:
                    raise err(ENOTDIR, dname)
                if di.entries:
                    raise err(ENOTEMPTY, dname)
        elif di is not None and di.entries is not None:
            raise err(EISDIR, dname)
        self._apply([(sd, sname, None), (dd, dname, si)])
        now = self.stamp()
        if di is not None:
            if di.entries is not None:
                di.nlink = 0
                dd.nlink -= 1
            else:
                di.nlink -= 1
                di.ctime = now
            self.maybe_free(di)
        if si.entries is not None and sd is not dd:
            si.parent = dd
            sd.nlink -= 1
            dd.nlink += 1
        si.ctime = now
        sd.mtime = sd.ctime = dd.mtime = dd.ctime = now

    # ---- file data

    def _resize(self, i, n):
        self.muts += 1
        cur = len(i.data)
        if n == cur:
            return
        try:
            if n < cur:
                del i.data[n:]
            else:
                i.data.extend(bytes(n - cur))
        except BufferError: # exported to a mapping or reader: detach
            d = bytearray(i.data)
            if n < cur:
                del d[n:]
            else:
                d.extend(bytes(n - cur))
            i.data = d
        self.used += n - cur

    def room(self):
        if self.capacity is None:
            return 1 << 60
        return max(0, self.capacity - self.used)

    def write(self, i, off, data):
        """Write data; return the count written (may be short for lack of space)."""
        n = len(data)
        if not n:
            return 0
        end = off + n
        grow = end - len(i.data)
        if grow > 0 and grow > self.room():
            n -= grow - self.room()
            if n <= 0:
                raise err(errno.ENOSPC)
            data = data[:n]
            end = off + n
        if end > len(i.data):
            self._resize(i, end)
        i.data[off:end] = data
        i.mtime = i.ctime = self.stamp()
        return n

    def truncate(self, i, n):
        if n > len(i.data) and n - len(i.data) > self.room():
            raise err(errno.ENOSPC)
        self._resize(i, n)
        i.mtime = i.ctime = self.stamp()

    # ---- copies

    def _blank(self):
        f = FS.__new__(FS)
        f.gran, f.ino_policy, f.dev = self.gran, self.ino_policy, self.dev
        f.next_ino, f.free_inos = self.next_ino, list(self.free_inos)
        f.seq, f.capacity, f.used = self.seq, self.capacity, self.used
        f.pending = []
        f.muts = 0
        f.now = self.now
        return f

    @staticmethod
    def _copy_attrs(i):
        c = Inode.__new__(Inode)
        for a in ('ino', 'mode', 'uid', 'gid', 'atime', 'mtime', 'ctime', 'nlink',
                  'target', 'rdev', 'attr', 'dev'):
            setattr(c, a, getattr(i, a))
        c.xattrs = dict(i.xattrs) if i.xattrs else None
        c.opens = 0
        c.data = c.entries = c.parent = c.d_data = c.d_entries = None
        return c

    def clone(self):
        """Exact copy, with the volatile and durable state (nothing is open in it)."""
        f = self._blank()
        memo = {}
        def cp(i):
            c = memo.get(id(i))
            if c is not None:
                return c
            c = memo[id(i)] = self._copy_attrs(i)
            if i.data is not None:
                c.data = bytearray(i.data)
                c.d_data = i.d_data
            if i.entries is not None:
                c.entries = {n: cp(x) for n, x in i.entries.items()}
                c.d_entries = {n: cp(x) for n, x in i.d_entries.items()}
                c.parent = None if i.parent is None else cp(i.parent)
            return c
        f.root = cp(self.root)
        for op in self.pending:
            f.pending.append(MetaOp(op.seq, [(cp(d), n, None if x is None else cp(x))
                                             for d, n, x in op.sets]))
        f.recount()
        return f

    def recount(self):
        """Recompute link counts, usage and parents from the tree (drops orphans)."""
        seen = {}
        used = 0
        stack = [(self.root, self.root)]
        while stack:
            i, parent = stack.pop()
            if id(i) in seen:
                if i.entries is None:
                    i.nlink += 1
                continue
            seen[id(i)] = i
            i.opens = 0
            if i.entries is not None:
                i.parent = parent
                i.nlink = 2 + sum(1 for c in i.entries.values() if c.entries is not None)
                for n in i.entries:
                    stack.append((i.entries[n], i))
            else:
                i.nlink = 1
                if i.data is not None:
                    used += len(i.data)
        self.used = used

    def crash_image(self, rng, personality='posix', mode='random', keep=()):
        """Return a new FS holding one admissible post-power-failure state."""
        # decide the surviving directory operations
        pend = self.pending
        if mode == 'none':
            survive = []
        elif mode == 'all':
            survive = list(pend)
        elif personality == 'journal':
            survive = pend[:rng.randint(0, len(pend))]
        else:
            # per-directory cut points; an operation survives if it is before the
            # cut of every directory it touches
            cut = {}
            for op in pend:
                for x in op.sets:
                    cut.setdefault(id(x[0]), []).append(op.seq)
            lim = {}
            for k, seqs in cut.items():
                r = rng.random()
                if r < .3:
                    lim[k] = 0
                elif r < .6:
                    lim[k] = seqs[-1]
                else:
                    lim[k] = rng.choice(seqs)
            survive = []
            blocked = {} # directories whose later operations cannot survive
            for op in pend:
                ok = all(op.seq <= lim[id(x[0])] and not blocked.get(id(x[0])) for x in op.sets)
                if ok:
                    survive.append(op)
                else:
                    for x in op.sets:
                        blocked[id(x[0])] = True
        f = self._blank()
        memo = {}
        def cp(i):
            c = memo.get(id(i))
            if c is not None:
                return c
            c = memo[id(i)] = self._copy_attrs(i)
            if i.data is not None:
                c.data = bytearray(self._surviving_data(i, rng, mode))
                c.d_data = bytes(c.data)
            if i.entries is not None:
                c.entries = {}
                c.d_entries = {}
                for n, x in i.d_entries.items():
                    c.entries[n] = cp(x)
            return c
        f.root = cp(self.root)
        for op in survive:
            for d, n, x in op.sets:
                cd = cp(d)
                if x is None:
                    cd.entries.pop(n, None)
                else:
                    cd.entries[n] = cp(x)
        f.recount()
        f.sync_all()
        return f

    @staticmethod
    def _surviving_data(i, rng, mode):
        cur = i.data
        dur = i.d_data if i.d_data is not None else b''
        if mode == 'all' or cur == dur:
            return bytes(cur)
        if mode == 'none':
            return dur
        r = rng.random()
        if r < .25:
            return dur
        if r < .5:
            return bytes(cur)
        # torn: each page independently new or old; size independently new or old
        if len(cur) == len(dur):
            # modified in place: a record's update that straddles pages is one unit
            return _torn_in_place(dur, cur, rng)
        size = rng.choice((len(cur), len(dur), max(len(cur), len(dur))))
        out = bytearray(size)
        out[:min(size, len(dur))] = dur[:size]
        p = rng.choice((.1, .5, .9))
        off = 0
        while off < min(size, len(cur)):
            if rng.random() < p:
                e = min(off + PAGE, size, len(cur))
                out[off:e] = cur[off:e]
            off += PAGE
        return bytes(out)

    # ---- harness conveniences (no process, no trace)

    def resolve(self, path, follow=True):
        return self.walk(path, self.root, follow=follow)

    def lookup(self, path, follow=True):
        try:
            return self.walk(path, self.root, follow=follow)
        except OSError:
            return None

    def mkdirs(self, path, mode=0o755):
        cur = self.root
        for p in [x for x in path.split(b'/') if x]:
            n = cur.entries.get(p)
            if n is None:
                n = self.create(cur, p, stat.S_IFDIR | mode)
            cur = n
        return cur

    def put(self, path, data, mode=0o644):
        """Create or overwrite (in place) a regular file."""
        d, name, i = self.walk(path, self.root, want_parent=True)
        if i is None:
            i = self.create(d, name, stat.S_IFREG | mode)
        self._resize(i, len(data))
        i.data[:] = data
        i.mtime = i.ctime = self.stamp()
        return i

    def read(self, path):
        return bytes(self.resolve(path).data)

    def tree(self, path=b'/'):
        """Yield (path, inode) for everything below path (sorted, no following)."""
        top = self.walk(path, self.root, follow=False)
        stack = [(path.rstrip(b'/') or b'', top)]
        while stack:
            p, i = stack.pop()
            yield p or b'/', i
            if i.entries is not None:
                for n in sorted(i.entries, reverse=True):
                    stack.append((p + b'/' + n, i.entries[n]))

    def remove_tree(self, path):
        d, name, i = self.walk(path, self.root, follow=False, want_parent=True)
        if i is None:
            return
        def rm(d, name, i):
            if i.entries is not None:
                for n in list(i.entries):
                    rm(i, n, i.entries[n])
                self.rmdir(d, name, i)
            else:
                self.unlink(d, name, i)
        rm(d, name, i)
