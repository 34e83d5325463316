"""Generated file contents, source trees and edits. Everything is JSON-able and
every edit that makes no sense in the current state is a no-op (so that
minimised histories stay valid)."""

import functools, os, random, stat
from errno import EEXIST

from .kernel import subrng

def enc(s): return s.encode('latin-1')
def dec(b): return b.decode('latin-1')


@functools.lru_cache(maxsize=256)
def _content(kind, seed, size):
    r = random.Random(f'{kind}/{seed}')
    if kind == 'rand':
        return r.randbytes(size)
    if kind == 'zero':
        return bytes(size)
    if kind == 'text':
        words = [r.randbytes(4).hex().encode() for _ in range(40)]
        out = bytearray()
        while len(out) < size:
            out += r.choice(words) + (b'\n' if r.random() < .2 else b' ')
        return bytes(out[:size])
    if kind == 'rep':
        blk = r.randbytes(r.choice((1, 7, 4096, 20000)))
        return (blk * (size // len(blk) + 1))[:size]
    if kind == 'holes':
        out = bytearray()
        while len(out) < size:
            out += r.randbytes(r.randint(1, 9000)) if r.random() < .5 else bytes(r.randint(1, 30000))
        return bytes(out[:size])
    raise ValueError(kind)

def content(spec):
    """spec: [kind, seed, size] or ['cat', spec...] or ['cut', spec, a, b] or ['hex', s]."""
    k = spec[0]
    if k == 'cat':
        return b''.join(content(x) for x in spec[1:])
    if k == 'cut':
        return content(spec[1])[spec[2]:spec[3]]
    if k == 'hex':
        return bytes.fromhex(spec[1])
    return _content(k, spec[1], spec[2])


def _parent(fs, path):
    i = path.rindex(b'/')
    d = fs.lookup(path[:i] or b'/', follow=False)
    return (d, path[i + 1:]) if d is not None and d.entries is not None else (None, None)

def _remove(fs, path):
    i = fs.lookup(path, follow=False)
    if i is not None:
        fs.remove_tree(path)

def _touch(fs, i):
    i.mtime = i.ctime = fs.stamp()

def apply_edit(fs, base, e):
    """Apply one edit to the tree at base; True if it did something."""
    k = e[0]
    p = base + b'/' + enc(e[1]) if e[1] else base
    i = fs.lookup(p, follow=False)
    if k == 'write':
        data = content(e[2])
        d, n = _parent(fs, p)
        if d is None or (i is not None and i.data is None):
            return False
        fs.put(p, data)
        return True
    if k == 'mkdir':
        d, n = _parent(fs, p)
        if d is None or i is not None:
            return False
        fs.create(d, n, stat.S_IFDIR | 0o755)
        return True
    if k == 'sym':
        d, n = _parent(fs, p)
        if d is None or i is not None:
            return False
        fs.create(d, n, stat.S_IFLNK | 0o777, target=enc(e[2]))
        return True
    if k == 'node':
        d, n = _parent(fs, p)
        if d is None or i is not None:
            return False
        t = {'fifo': stat.S_IFIFO, 'chr': stat.S_IFCHR, 'blk': stat.S_IFBLK, 'sock': stat.S_IFSOCK}[e[2]]
        fs.create(d, n, t | 0o600, rdev=os.makedev(e[3], e[4]) if len(e) > 3 else 0)
        return True
    if k == 'ln':
        q = base + b'/' + enc(e[2])
        j = fs.lookup(q, follow=False)
        d, n = _parent(fs, q)
        if i is None or i.entries is not None or j is not None or d is None:
            return False
        fs.link(i, d, n)
        return True
    if k == 'mv':
        q = base + b'/' + enc(e[2])
        sd, sn = _parent(fs, p)
        dd, dn = _parent(fs, q)
        if i is None or dd is None or sd is None or q == p or q.startswith(p + b'/') or p == base:
            return False
        j = fs.lookup(q, follow=False)
        if j is not None:
            if j is i or (j.entries is not None) != (i.entries is not None) or j.entries:
                return False
        fs.rename(sd, sn, i, dd, dn, j)
        return True
    if k == 'many':
        # a wide directory
        if i is None or i.entries is None:
            return False
        r = random.Random(f'many/{e[4]}')
        for n in range(e[3]):
            if e[2] == '*': # names whose order depends on the kind of entry, dots, long ones
                q = p + b'/' + r.choice((b'n', b'n', b'n', b'.', b'..', b'.b', b'.bupm-', b'.bupm.', b'x..0.bupd', b'L' * r.randrange(90), b'\xff', b'%d' % r.randrange(10)))
                q += b'%d' % r.randrange(200) + r.choice((b'', b'', b'.', b'.x', b'-', b'0', b'.bup', b'.bup-', b'.bupl', b'.bupl.', b'.bupm', b'.bupd', b'..1.bupd', b' '))
                if len(q) > len(p) + 250 or fs.lookup(q, follow=False) is not None:
                    continue
                if r.random() < .3:
                    fs.mkdirs(q)
                    if r.random() < .3:
                        fs.put(q + b'/f', b'%d' % r.randrange(50))
                else:
                    fs.put(q, b'%d' % r.randrange(50) if r.random() < .97 else r.randbytes(r.choice((9000, 20000))))
                    j = fs.lookup(q)
                    j.mtime = r.randrange(1_500_000_000) * 10**9
                    j.uid, j.gid = r.choice((0, 0, 1000, r.randrange(10**6))), r.choice((0, 0, 50, r.randrange(10**6)))
                continue
            q = p + b'/' + enc(e[2]) + b'%d' % r.randrange(10**6)
            if fs.lookup(q, follow=False) is None:
                fs.put(q, b'%d' % r.randrange(50))
        return True
    if i is None:
        return False
    if k == 'rm':
        if p == base:
            return False
        _remove(fs, p)
        return True
    if k == 'append':
        if i.data is None: return False
        b = content(e[2])
        fs.write(i, len(i.data), b)
        _touch(fs, i)
        return True
    if k == 'poke':
        if i.data is None or not i.data: return False
        b = content(e[3])
        off = e[2] % len(i.data)
        b = b[:len(i.data) - off]
        fs.write(i, off, b)
        _touch(fs, i)
        return True
    if k == 'trunc':
        if i.data is None: return False
        fs.truncate(i, min(e[2], len(i.data)))
        _touch(fs, i)
        return True
    if k == 'chmod':
        if i.target is not None: return False
        i.mode = stat.S_IFMT(i.mode) | e[2]
        i.ctime = fs.stamp()
        return True
    if k == 'chown':
        i.uid, i.gid = e[2], e[3]
        i.ctime = fs.stamp()
        return True
    if k == 'utime':
        i.mtime = e[2] - e[2] % fs.gran
        i.ctime = fs.stamp()
        return True
    if k == 'touch':
        _touch(fs, i)
        return True
    if k == 'xattr':
        if i.target is not None or not (i.data is not None or i.entries is not None):
            return False
        x = dict(i.xattrs or {})
        if e[3] is None:
            x.pop(enc(e[2]), None)
        else:
            x[enc(e[2])] = enc(e[3])
        i.xattrs = x or None
        i.ctime = fs.stamp()
        return True
    if k == 'acl':
        if i.data is None and i.entries is None:
            return False
        x = dict(i.xattrs or {})
        x[b'\0acl'] = enc(e[2]) + b'/' + (enc(e[3]) if i.entries is not None else b'')
        i.xattrs = x
        i.ctime = fs.stamp()
        return True
    if k == 'attr':
        if i.data is None and i.entries is None: return False
        i.attr = e[2]
        i.ctime = fs.stamp()
        return True
    raise ValueError(k)


NAMES = ['a', 'b', 'c', 'dd', 'e.txt', 'f g', 'h\xff\x01', 'x.bup', 'y.bupl', 'z.bupm', '.bupm', 'w.bupd',
         'q.0.bupd', 'new\nline', '-dash', 'a.', 'a-', 'a0', 'ab', '.hid', 'A', '\xe9t\xe9', 'v.bu', "it's",
         'a.bup', 'x', 'b.bupd', '.bupm-', '.bupm.x', '.bupl0', '.bup']

ACLS = ('u::rw-,u:1000:r--,g::r--,m::r--,o::r--', 'u::rwx,g::---,g:50:rwx,m::rwx,o::---', 'u::rw-,u:4242:rw-,u:1001:r--,g::r--,m::rw-,o::---')

KINDS = ('rand', 'rand', 'rand', 'text', 'zero', 'rep', 'holes')

def rand_spec(rng, big=.15, maxsize=120000):
    r = rng.random()
    if r < .08:
        size = 0
    elif r < .5:
        size = rng.randint(1, 300)
    elif r < 1 - big:
        size = rng.randint(300, 20000)
    else:
        size = rng.randint(20000, maxsize)
    return [rng.choice(KINDS), rng.randrange(1000), size]


class TreeGen:
    """Generates edits against a scratch model of the tree (an FS)."""
    def __init__(self, rng, fs, base, *, rich=True, links=True, maxsize=120000, names=None,
                 big=.15, special=None):
        self.rng = rng
        self.fs = fs
        self.base = base
        self.rich = rich
        self.links = links
        self.maxsize = maxsize
        self.names = names or NAMES
        self.big = big
        self.special = rich if special is None else special
        self.t = 1_500_000_000

    def dirs(self):
        return [p[len(self.base) + 1:] for p, i in self.fs.tree(self.base) if i.entries is not None]
    def files(self):
        return [p[len(self.base) + 1:] for p, i in self.fs.tree(self.base) if i.data is not None]
    def all(self):
        return [p[len(self.base) + 1:] for p, i in self.fs.tree(self.base) if p != self.base]

    def newname(self):
        d = self.rng.choice(self.dirs())
        n = enc(self.rng.choice(self.names))
        if self.rng.random() < .3:
            n = n + b'%d' % self.rng.randrange(30)
        return dec(d + b'/' + n if d else n)

    def spec(self):
        return rand_spec(self.rng, self.big, self.maxsize)

    def one(self):
        rng = self.rng
        files, al = self.files(), self.all()
        r = rng.random()
        if not files or r < .30:
            return ['write', self.newname(), self.spec()]
        f = dec(rng.choice(files))
        if r < .38: return ['mkdir', self.newname()]
        if r < .46: return ['write', f, self.spec()]
        if r < .52: return ['append', f, self.spec()]
        if r < .57: return ['poke', f, rng.randrange(1 << 20), ['rand', rng.randrange(999), rng.choice((1, 10, 5000))]]
        if r < .60: return ['trunc', f, rng.choice((0, 1, 100, 9000))]
        if r < .68: return ['rm', dec(rng.choice(al))]
        if r < .74: return ['mv', dec(rng.choice(al)), self.newname()]
        if r < .77: return ['mv', f, dec(rng.choice(files))]
        if r < .82 and self.links:
            return ['ln', f if not self.rich or rng.random() < .7 else dec(rng.choice(al)), self.newname()]
        if not self.rich:
            return ['write', self.newname(), self.spec()]
        p = dec(rng.choice(al + [b'']))
        if r < .86: return ['sym', self.newname(), rng.choice(('a', '../b', '/etc/x', 'no\nwhere', 'd' * 200))]
        if r < .88 and self.special:
            k = rng.choice(('fifo', 'chr', 'blk', 'sock'))
            return ['node', self.newname(), k] + ([rng.randrange(256), rng.randrange(256)] if k in ('chr', 'blk') else [])
        if r < .91: return ['chmod', p, rng.choice((0o600, 0o755, 0o644, 0o4755, 0o1777, 0o000, 0o2750))]
        if r < .93: return ['chown', p, rng.choice((0, 1000, 1001, 4242)), rng.choice((0, 50, 1000, 777))]
        if r < .96: return ['utime', p, rng.choice((0, 1, 999_999_999, 10**18, 1_500_000_000 * 10**9 + rng.randrange(10**9),
                                                     -5 * 10**9, -1_234_567_890, 2**31 * 10**9))]
        if r < .965: return ['acl', p, rng.choice(ACLS), rng.choice(('', *ACLS))]
        if r < .97: return ['attr', p, rng.choice((0x40, 0x80, 0xc0))]
        if r < .985: return ['xattr', p, rng.choice(('user.a', 'user.b', 'user.\xff')),
                            rng.choice((None, '', 'v', 'x' * 300))]
        return ['touch', p]

    def edits(self, n):
        out = []
        for _ in range(n):
            e = self.one()
            try:
                if apply_edit(self.fs, self.base, e):
                    out.append(e)
            except OSError:
                pass
        return out
