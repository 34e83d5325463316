"""Independent readers of the on-disk formats, used as oracles.

They read a simulated file system directly (no system calls) and share no code
with bup.
"""

import hashlib, re, stat, struct, zlib
from binascii import hexlify, unhexlify

from .programs import Idx, BadPack, unpack_at, oid_of

S_IFDIR = stat.S_IFDIR


class Bad(Exception):
    """The repository violates its format."""

class Missing(Exception):
    def __init__(self, oid, via=''):
        super().__init__(f'missing object {oid.hex()} {via}')
        self.oid = oid


_pack_cache = {}

def parse_pack(pack, idx):
    """({oid: (type, content)}, [problems]) of a pack and its index."""
    key = hashlib.sha1(pack).digest() + hashlib.sha1(idx).digest()
    r = _pack_cache.get(key)
    if r is None:
        r = _parse_pack(pack, idx)
        if len(_pack_cache) > 400:
            _pack_cache.clear()
        _pack_cache[key] = r
    return r

def _parse_pack(pack, idx):
    objs, probs = {}, []
    try:
        x = Idx(idx)
    except BadPack as ex:
        return objs, [f'index: {ex}']
    if not x.check():
        probs.append('index checksum mismatch')
    if len(pack) < 32 or pack[:8] != b'PACK\0\0\0\2':
        return objs, probs + ['bad pack header']
    if hashlib.sha1(pack[:-20]).digest() != pack[-20:]:
        probs.append('pack checksum mismatch')
    if x.packsum() != pack[-20:]:
        probs.append('index belongs to another pack')
    n = struct.unpack('!I', pack[8:12])[0]
    if n != x.n:
        probs.append(f'pack has {n} objects, index {x.n}')
    prev = b''
    offs = []
    for i in range(x.n):
        oid = x.oid(i)
        if oid < prev: # (git and bup accept duplicates)
            probs.append('index not sorted')
        prev = oid
        if not x.fan[oid[0]] > i or (oid[0] and x.fan[oid[0] - 1] > i):
            probs.append('bad fan-out table')
        try:
            off = x.offset(i)
            t, c, end = unpack_at(pack, off)
        except BadPack as ex:
            probs.append(f'object {oid.hex()}: {ex}')
            continue
        if oid_of(t, c) != oid:
            probs.append(f'object {oid.hex()}: content does not match')
            continue
        if zlib.crc32(pack[off:end]) != x.crc(i):
            probs.append(f'object {oid.hex()}: wrong crc')
        offs.append((off, end))
        objs[oid] = (t, c)
    offs.sort()
    at = 12
    for a, b in offs:
        if a < at:
            probs.append('duplicate or overlapping objects')
            break
        if a > at:
            probs.append(f'{a - at} bytes between objects')
            break
        at = b
    else:
        if at != len(pack) - 20 and not probs:
            probs.append(f'{len(pack) - 20 - at} bytes after the last object')
    return objs, probs


class Repo:
    """Everything in a repository on a simulated file system."""
    def __init__(self, fs, path=b'/r'):
        self.fs = fs
        self.path = path
        self.packs = {} # stem -> {oid: ...}
        self.problems = [] # (file, problem)
        self.objs = {}
        self.where = {} # oid -> [stem]
        d = fs.lookup(path + b'/objects/pack')
        ents = d.entries if d is not None and d.entries is not None else {}
        for n in sorted(ents):
            if n.endswith(b'.idx'):
                p = ents.get(n[:-4] + b'.pack')
                if p is None or p.data is None or ents[n].data is None:
                    self.problems.append((n, 'index without a pack'))
                    continue
                objs, probs = parse_pack(bytes(p.data), bytes(ents[n].data))
                for x in probs:
                    self.problems.append((n, x))
                self.packs[n[:-4]] = objs
                for o in objs:
                    self.where.setdefault(o, []).append(n[:-4])
                self.objs.update(objs)
        o = fs.lookup(path + b'/objects')
        for h, dd in sorted((o.entries if o is not None and o.entries is not None else {}).items()):
            if len(h) == 2 and dd.entries is not None:
                for n, f in sorted(dd.entries.items()):
                    if len(n) == 38 and f.data is not None:
                        try:
                            b = zlib.decompress(bytes(f.data))
                            head, _, body = b.partition(b'\0')
                            oid = unhexlify(h + n)
                            t = head.split()[0]
                            if oid_of(t, body) == oid:
                                self.objs[oid] = (t, body)
                                self.where.setdefault(oid, []).append(b'loose')
                        except (zlib.error, ValueError):
                            self.problems.append((n, 'bad loose object'))
        self._closed = {}

    def refs(self):
        """{refname: oid}."""
        res = {}
        pr = self.fs.lookup(self.path + b'/packed-refs')
        if pr is not None and pr.data is not None:
            for l in bytes(pr.data).splitlines():
                if l and not l.startswith((b'#', b'^')):
                    h, _, n = l.partition(b' ')
                    res[n] = unhexlify(h)
        top = self.path + b'/refs'
        if self.fs.lookup(top) is None:
            return res
        for p, i in self.fs.tree(top):
            if i.data is not None and not p.endswith(b'.lock'):
                h = bytes(i.data).strip()
                n = p[len(self.path) + 1:]
                if not re.fullmatch(b'[0-9a-f]{40}', h):
                    raise Bad(f'ref {n!r} holds {h!r}')
                res[n] = unhexlify(h)
        return res

    def branches(self):
        return {n[11:]: o for n, o in self.refs().items() if n.startswith(b'refs/heads/')}

    def get(self, oid, want=None):
        r = self.objs.get(oid)
        if r is None:
            raise Missing(oid)
        if want is not None and r[0] != want:
            raise Bad(f'{oid.hex()} is a {r[0]} instead of a {want}')
        return r[1]

    def type(self, oid):
        r = self.objs.get(oid)
        return None if r is None else r[0]

    # -- git objects

    def tree(self, oid):
        """[(mode, name, oid)]."""
        b = self.get(oid, b'tree')
        res = []
        i = 0
        while i < len(b):
            j = b.index(b'\0', i)
            m, _, n = b[i:j].partition(b' ')
            res.append((int(m, 8), n, b[j + 1:j + 21]))
            i = j + 21
        return res

    def commit(self, oid):
        c = self.get(oid, b'commit')
        head, _, msg = c.partition(b'\n\n')
        r = {'parents': [], 'msg': msg}
        for l in head.splitlines():
            k, _, v = l.partition(b' ')
            if k == b'tree':
                r['tree'] = unhexlify(v)
            elif k == b'parent':
                r['parents'].append(unhexlify(v))
            elif k in (b'author', b'committer'):
                r[k.decode()] = v
                m = re.search(br'> (-?\d+) ([-+]\d+)$', v)
                r[k.decode() + '_time'] = int(m.group(1))
        return r

    def history(self, oid):
        """Commit ids, newest first (bup histories are linear)."""
        res = []
        while oid is not None:
            if self.type(oid) == b'tag':
                oid = unhexlify(self.get(oid).split(b'\n', 1)[0][7:])
            c = self.commit(oid)
            res.append(oid)
            oid = c['parents'][0] if c['parents'] else None
        return res

    def links(self, oid):
        t, c = self.objs[oid]
        if t == b'commit':
            k = self.commit(oid)
            return [(k['tree'], b'tree')] + [(p, b'commit') for p in k['parents']]
        if t == b'tree':
            return [(o, b'tree' if stat.S_ISDIR(m) else b'blob')
                    for m, n, o in self.tree(oid) if m != 0o160000]
        if t == b'tag':
            return [(unhexlify(c.split(b'\n', 1)[0][7:]), None)]
        return []

    def closure(self, start):
        """(reachable oids, missing oids)."""
        seen, missing = set(), set()
        todo = [(start, None)]
        while todo:
            o, want = todo.pop()
            if o in seen or o in missing:
                continue
            r = self.objs.get(o)
            if r is None:
                missing.add(o)
                continue
            if want is not None and r[0] != want:
                raise Bad(f'{o.hex()} is a {r[0]} where a {want} is needed')
            seen.add(o)
            todo.extend(self.links(o))
        return seen, missing

    def incomplete(self):
        """{ref: missing object}."""
        res = {}
        for n, o in sorted(self.refs().items()):
            s, m = self.closure(o)
            if m:
                res[n] = sorted(m)[0].hex()
        return res

    # -- bup encoding

    def chunks(self, oid, mode):
        """Content of a (possibly chunked) file."""
        if not stat.S_ISDIR(mode):
            return self.get(oid, b'blob')
        out = []
        at = 0
        ents = self.tree(oid)
        if not ents:
            return b''
        for m, n, o in ents:
            off = int(n, 16)
            b = self.chunks(o, m)
            if off != at:
                raise Bad(f'chunk at {off} instead of {at} in {oid.hex()}')
            at += len(b)
            out.append(b)
        return b''.join(out)

    def dir(self, oid):
        """{name: (kind, mode, oid)} of a saved directory; kind: 'dir' 'file' 'link'."""
        ents = self.tree(oid)
        ents = self._unsplit(ents)
        res = {}
        for m, n, o in ents:
            if n == b'.bupm':
                continue
            if n.endswith(b'.bupl'):
                n, kind = n[:-5], None
            elif n.endswith(b'.bup'):
                n, kind = n[:-4], 'file'
            else:
                kind = None
            if kind is None:
                kind = 'dir' if stat.S_ISDIR(m) else 'link' if stat.S_ISLNK(m) else 'file'
            if n in res:
                raise Bad(f'duplicate entry {n!r} in {oid.hex()}')
            res[n] = (kind, m, o)
        return res

    def _unsplit(self, ents):
        """Entries of a directory that was stored as a tree of trees."""
        if not any(n.endswith(b'.bupd') for _, n, _ in ents):
            return ents
        res = []
        for m, n, o in ents:
            if n.endswith(b'.bupd'):
                res.extend(self._unsplit(self.tree(o)))
            elif n != b'.bupm':
                raise Bad(f'unexpected {n!r} in a split tree')
        return res

    def content(self, tree_oid):
        """{path: (kind, bytes)} below a saved tree; directories have None."""
        res = {}
        def walk(path, oid):
            res[path] = ('dir', None)
            for n, (kind, m, o) in self.dir(oid).items():
                p = path + b'/' + n if path else n
                if kind == 'dir':
                    walk(p, o)
                else:
                    res[p] = (kind, self.chunks(o, m))
        walk(b'', tree_oid)
        return res


# ---------------------------------------------------------------- file system snapshots

def snapshot(fs, top, *, meta=True, skip=()):
    """{relative path: description} of everything below top."""
    res = {}
    groups = {}
    for p, i in fs.tree(top):
        rel = p[len(top.rstrip(b'/')):].lstrip(b'/')
        if any(rel == s or rel.startswith(s + b'/') for s in skip):
            continue
        if i.entries is None and i.nlink > 1:
            groups.setdefault(id(i), []).append(rel)
        res[rel] = describe(i, meta)
    for g in groups.values():
        for rel in g:
            res[rel]['links'] = tuple(sorted(g))
    return res

def describe(i, meta=True):
    r = {'kind': stat.S_IFMT(i.mode)}
    if i.data is not None:
        r['data'] = bytes(i.data)
    if i.target is not None:
        r['target'] = i.target
    if stat.S_ISCHR(i.mode) or stat.S_ISBLK(i.mode):
        r['rdev'] = i.rdev
    if meta:
        if i.target is None:
            r['perm'] = stat.S_IMODE(i.mode)
        r['uid'], r['gid'] = i.uid, i.gid
        r['mtime'] = i.mtime
        if i.xattrs:
            r['xattrs'] = tuple(sorted(i.xattrs.items()))
        if i.attr:
            r['attr'] = i.attr
    return r

def diff_snap(a, b, what=('a', 'b'), keys=None):
    """First differences between two snapshots, as text lines."""
    out = []
    for p in sorted(set(a) | set(b)):
        x, y = a.get(p), b.get(p)
        if x is None or y is None:
            out.append(f'{p!r}: only in {what[0] if y is None else what[1]}')
            continue
        for k in sorted(set(x) | set(y)):
            if keys is not None and k not in keys:
                continue
            if x.get(k) != y.get(k):
                u, v = x.get(k), y.get(k)
                if k == 'data' and u is not None and v is not None:
                    j = next((j for j, (s, t) in enumerate(zip(u, v)) if s != t),
                             min(len(u), len(v)))
                    u, v = f'{len(u)} bytes', f'{len(v)} bytes (first difference at {j})'
                out.append(f'{p!r}: {k}: {what[0]} {u}, {what[1]} {v}')
        if len(out) > 8:
            break
    return out
