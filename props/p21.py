"""A restricted server only lets a client extend its own branch."""

import hashlib, struct, zlib

from .common import *
from sim import simposix as X

ID = 'P21'
RULE = ('A plan is a repository with several branches, tags, packs and a second repository next to it, and sessions in which bup on runs a save, split or restore on a '
        'machine whose bup is hostile: it sends any sequence of messages, from a grammar of all commands (honest uploads; forged, existing or damaged objects; '
        'ref updates with any combination of names, old and new values, abbreviations; other directories; reading commands; mutated, truncated and raw data) under sampled '
        'fragmentation. After each session only the requested branch may have moved, to a commit whose history contains its old value, existing objects '
        'must read as before, every other file of the machine must be the same, and no file content may have been sent. The server must end. '
        'Distinct non-trivial: different (mode, message sequence, outcome) combinations.')
ASSUMPTIONS = ['the hostile machine knows all ids and names', 'a lookup index or bloom filter may be rebuilt', 'a new branch may start at any commit']
SHRINK = ['sessions', 'sessions.*.ops']
PROBES = ['save', 'split', 'restore', 'get', 'moved', 'created', 'not-moved', 'denied', 'no-dedup', 'mutated', 'honest', 'forged', 'overwrite-pack', 'not-a-child',
          'abbreviated', 'no-name']
SECRET = b'SECRET-one-0123456789'
SECRET2 = b'SECRET-two-0123456789'

IDS = ('cur', 'cur', 'new', 'new', 'old', 'other', 'tag', 'tree', 'blob', 'zero', 'rand', 'none', 'short', 'newtree', 'foreign', 'name')
REFS = ('mine', 'mine', 'mine', 'mine', 'other', 'tag', 'HEAD', 'refs/heads/', 'mine/x', 'x/../mine', 'short', 'newtag', 'remote', '-d')
DIRS = ('/r', '/r', '/r2', '/r/../r2', '/link', '', '/', '/tmp', '/nonexistent', '.', '/r/objects', '/tmp/new')

def obj(rng):
    x = rng.random()
    if x < .3:
        return ['blob', rng.randrange(1000), rng.choice((0, 10, 5000))]
    if x < .45:
        return ['tree', rng.choice(('new', 'exists'))]
    if x < .7:
        return ['commit', rng.choice(('cur', 'cur', 'cur', 'none', 'old', 'other', 'cur+other', 'other+cur', 'tag', 'new', 'message', 'upper')), rng.choice(('newtree', 'newtree', 'tree', 'rand'))]
    if x < .9:
        return ['forge', rng.choice(('cur', 'tree', 'blob', 'blob', 'other', 'rand', 'rand', 'old')), rng.choice(('blob', 'commit', 'tree', 'garbage', 'empty')), rng.random() < .9]
    return ['length', rng.choice((1, 23, 24, 100, 0xfffffffe, 1 << 20))]

def op(rng):
    x = rng.random()
    if x < .3:
        return ['objects', [obj(rng) for _ in range(rng.randint(0, 5))], rng.choice(('end', 'end', 'end', 'suspend', 'nothing'))]
    if x < .62:
        return ['update-ref', rng.choice(REFS), rng.choice(IDS), rng.choice(IDS)]
    if x < .66:
        return [rng.choice(('set-dir', 'init-dir')), rng.choice(DIRS)]
    if x < .72:
        return ['send-index', rng.choice(('real', 'real', '../../config', '../x.idx', 'x.idx', 'foreign', '.idx', ''))]
    if x < .76:
        return ['line', rng.choice(('list-indexes', 'help', 'read-ref refs/heads/other', 'read-ref --exclude-existing', 'read-ref', 'quit x', '', 'init-session', 'close', '_check', 'handle', 'conn', '__init__'))]
    if x < .8:
        return ['config-get', rng.choice(('bup.repo.id', 'bup.split.files', 'core.bare', 'include.path', '')), rng.choice(('', 'int', 'bool', 'path', '../x'))]
    if x < .92:
        return ['read', rng.choice(('cat', 'join', 'cat-batch', 'resolve', 'refs', 'rev-list', 'cat-batch', 'resolve-deep')), rng.choice(('blob', 'cur', 'tree', 'main:src/a'))]
    return ['raw', rng.randrange(1 << 30), rng.choice((1, 10, 300))]

HONEST = [['objects', [['blob', 1, 900], ['tree', 'new'], ['commit', 'cur', 'newtree']], 'end'], ['update-ref', 'mine', 'new', 'cur']]

def plan(rng, tier, i):
    cfg = base_cfg(rng, srv=True)
    cfg['config'] = repo_config(rng)
    if rng.random() < .4:
        cfg['config'] += '[bup "server"]\n\tdeduplicate-writes = false\n'
    cfg['frag'] = rng.choice(('none', 'mixed'))
    cfg['preempt'] = rng.choice((0, .1))
    ss = []
    for k in range(rng.randint(2, 6)):
        mode = rng.choice(('save', 'save', 'save', 'split', 'split', 'restore', 'get', 'noname'))
        name = rng.choice(('main', 'main', 'main', 'fresh', 'fresh/sub'))
        ops = [op(rng) for _ in range(rng.randint(0, 3))]
        if mode in ('save', 'split') and rng.random() < .5:
            # an honest upload, perhaps with something wrong about it
            h = json.loads(json.dumps(HONEST))
            y = rng.random()
            if y < .5:
                h[0][1] += [obj(rng) for _ in range(rng.randint(1, 3))]
                rng.shuffle(h[0][1]) if y < .1 else None
            if y > .4:
                z = rng.choice((1, 2, 3))
                h[1][z] = rng.choice(REFS if z == 1 else IDS)
            if y > .9:
                h[0][1][2][1] = rng.choice(('none', 'old', 'other', 'message', 'upper'))
            ops = h + ops if rng.random() < .7 else ops + h
        if rng.random() < .15:
            ops.append(['overwrite', rng.choice(('main', 'other'))])
        ss.append({'mode': mode, 'name': name, 'ops': ops, 'seed': rng.randrange(1 << 30),
                   'mutate': rng.choice((None,) * 5 + ('flip', 'cut', 'dup', 'insert')), 'split': rng.random() < .3})
    return {'cfg': cfg, 'sessions': ss, 'seed': rng.randrange(1 << 30)}

def sample(p):
    return {'sessions': p['sessions'][:3]}

def pack_obj(t, c):
    n = len(c)
    b = {b'commit': 1, b'tree': 2, b'blob': 3, b'tag': 4}[t] << 4 | n & 15
    n >>= 4
    h = bytearray()
    while n:
        h.append(b | 0x80)
        b = n & 0x7f
        n >>= 7
    h.append(b)
    return bytes(h) + zlib.compress(c, 1)

def hash_of(t, c):
    return hashlib.sha1(b'%s %d\0' % (t, len(c)) + c).digest()

class Evil:
    """Builds the byte stream of a session."""
    def __init__(self, fs, s, rec, refname):
        self.fs, self.s, self.rec = fs, s, rec
        self.rng = subrng(s['seed'], 'evil')
        r = Repo(fs)
        self.r = r
        refs = r.refs()
        self.cur = refs.get(refname)
        self.refname = refname
        blob = next(o for o, (t, c) in sorted(r.objs.items()) if t == b'blob' and SECRET in c)
        com = refs[b'refs/heads/main']
        self.ids = {'cur': self.cur or bytes(20), 'other': refs[b'refs/heads/other'], 'tag': refs[b'refs/tags/t'],
                    'old': (r.commit(com)['parents'] or [com])[0], 'tree': bytes.fromhex(r.commit(com)['tree'].hex()), 'blob': blob, 'zero': bytes(20), 'none': b'',
                    'foreign': Repo(fs, b'/r2').refs()[b'refs/heads/main'], 'name': bytes.fromhex('beef')}
        self.new, self.newtree, self.newblob = None, None, None
        self.badcrc = set()

    def id(self, k):
        if k == 'rand':
            return self.rng.randbytes(20)
        if k == 'new':
            return self.new or self.ids['cur']
        if k == 'newtree':
            return self.newtree or self.ids['tree']
        if k == 'short':
            self.rec.probe('abbreviated')
            return (self.new or self.ids['cur'])[:self.rng.choice((2, 4, 10))]
        return self.ids[k]

    def ref(self, k):
        m = self.refname
        return {'mine': m, 'other': b'refs/heads/other', 'tag': b'refs/tags/t', 'mine/x': m + b'/x', 'x/../mine': b'refs/heads/x/../' + m[11:], 'short': m[11:],
                'newtag': b'refs/tags/new', 'remote': b'refs/remotes/x'}.get(k, k.encode())

    def commit(self, parent, tree):
        t = self.id(tree)
        ps = {'none': [], 'message': [], 'upper': [self.ids['cur']]}.get(parent)
        if ps is None:
            ps = [self.id(x) for x in parent.split('+')]
        ps = [p for p in ps if any(p)]
        c = b'tree %s\n' % t.hex().encode()
        for p in ps:
            h = p.hex().encode()
            c += b'parent %s\n' % (h.upper() if parent == 'upper' else h)
        c += b'author a <a@b> 1700000000 +0000\ncommitter a <a@b> 1700000000 +0000\n'
        c += b'\nx %d\n' % self.rng.randrange(100)
        if parent == 'message':
            c += b'parent %s\n' % self.ids['cur'].hex().encode()
        if self.cur and self.cur not in ps:
            self.rec.probe('not-a-child')
        return c

    def frame(self, oid, data, crc=True):
        c = zlib.crc32(data) & 0xffffffff
        return struct.pack('!I', len(data) + 24) + oid + struct.pack('!I', c if crc else c ^ 1) + data

    def object(self, o):
        if o[0] == 'blob':
            c = subrng(o[1], 'blob').randbytes(o[2])
            self.newblob = hash_of(b'blob', c)
            return self.frame(self.newblob, pack_obj(b'blob', c))
        if o[0] == 'tree':
            if o[1] == 'exists':
                t = self.ids['tree']
                x = self.r.objs.get(t)
                if x is None: # (an earlier client's commit of nothing)
                    return self.frame(hash_of(b'tree', b''), pack_obj(b'tree', b''))
                return self.frame(t, pack_obj(*x))
            c = b'100644 f\0' + (self.newblob or self.ids['blob'])
            self.newtree = hash_of(b'tree', c)
            return self.frame(self.newtree, pack_obj(b'tree', c))
        if o[0] == 'commit':
            c = self.commit(o[1], o[2])
            self.new = hash_of(b'commit', c)
            return self.frame(self.new, pack_obj(b'commit', c))
        if o[0] == 'forge':
            self.rec.probe('forged')
            oid = self.id(o[1])
            kind = o[2]
            if not o[3]:
                self.badcrc.add(oid)
            if kind == 'garbage':
                return self.frame(oid, self.rng.randbytes(50), o[3])
            if kind == 'empty':
                return self.frame(oid, pack_obj(b'blob', b''), o[3])
            if kind == 'commit':
                c = self.commit('cur', 'tree')
                if o[1] == 'rand':
                    self.new = oid
                return self.frame(oid, pack_obj(b'commit', c), o[3])
            return self.frame(oid, pack_obj(kind.encode(), b'forged' if kind == 'blob' else b''), o[3])
        return struct.pack('!I', o[1]) + self.rng.randbytes(30)

    def message(self, o):
        k = o[0]
        if k == 'objects':
            return b'receive-objects-v2\n' + b''.join(self.object(x) for x in o[1]) + {'end': b'\0\0\0\0', 'suspend': b'\xff\xff\xff\xff', 'nothing': b''}[o[2]]
        if k == 'update-ref':
            return b'update-ref %s\n%s\n%s\n' % (self.ref(o[1]), self.id(o[2]).hex().encode(), self.id(o[3]).hex().encode())
        if k in ('set-dir', 'init-dir'):
            return k.encode() + b' ' + o[1].encode() + b'\n'
        if k == 'send-index':
            n = o[1].encode()
            if o[1] in ('real', 'foreign'):
                d = self.fs.lookup(b'/r/objects/pack' if o[1] == 'real' else b'/r2/objects/pack')
                n = sorted(x for x in d.entries if x.endswith(b'.idx'))[0]
            return b'send-index ' + n + b'\n'
        if k == 'line':
            return o[1].encode() + b'\n'
        if k == 'config-get':
            a, b = o[1].encode(), o[2].encode()
            return b'config-get\n' + bytes([len(a)]) + a + bytes([len(b)]) + b
        if k == 'read':
            a = o[2].encode() if ':' in o[2] else self.id(o[2]).hex().encode()
            p = b'/main/latest/src/a' if o[2] != 'cur' else b'/'
            return {'cat': b'cat ' + a + b'\n', 'join': b'join ' + a + b'\n', 'cat-batch': b'cat-batch\n' + a + b'\n\n', 'refs': b'refs 0 0\n\n',
                    'rev-list': b'rev-list\n\n\n' + a + b'\n\n', 'resolve': b'resolve 1\n' + bytes([len(p)]) + p,
                    'resolve-deep': b'resolve 3\n' + bytes([len(p)]) + p}[o[1]]
        if k == 'raw':
            return subrng(o[1], 'raw').randbytes(o[2]) + b'\n'
        if k == 'overwrite':
            # the ids of a whole pack with other contents: the same pack name
            self.rec.probe('overwrite-pack')
            ref = b'refs/heads/' + o[1].encode()
            com = self.r.refs()[ref]
            stem = self.r.where[com][0]
            return b'receive-objects-v2\n' + b''.join(self.frame(x, pack_obj(b'blob', b'overwritten')) for x in sorted(self.r.packs[stem])) + b'\0\0\0\0'
        raise HarnessError(str(o))

    def stream(self):
        ms = [self.message(o) for o in self.s['ops']]
        b = b''.join(ms)
        m = self.s['mutate']
        if m and b:
            self.rec.probe('mutated')
            k = self.rng.randrange(len(b))
            if m == 'flip':
                b = b[:k] + bytes([b[k] ^ 1 << self.rng.randrange(8)]) + b[k + 1:]
            elif m == 'cut':
                b = b[:k]
            elif m == 'dup':
                j = self.rng.randrange(len(b))
                b = b[:max(j, k)] + b[min(j, k):]
            else:
                b = b[:k] + self.rng.randbytes(self.rng.choice((1, 4, 20))) + b[k:]
        elif self.s['split']:
            pass
        return b

def hostile(stream, got):
    """The program that takes the place of bup on--server."""
    def prog(p):
        w = G.world
        n = 4
        b = b''
        while len(b) < n:
            x = X.read(0, n - len(b))
            if not x:
                return 1
            b += x
            if len(b) == 4:
                n = 4 + struct.unpack('!I', b[:4])[0]
        try:
            X.write(2, b'BUPMUX\0\0\0\0\3')
            X.close(2)
        except OSError:
            pass
        pos = 0
        inp, out = p.desc(0), p.desc(1)
        while True:
            if pos == len(stream) and 1 in p.fds:
                X.close(1)
            end = w.now + 1000 * SEC
            if not w.block(p, lambda: inp.ready_r(w) or (pos < len(stream) and out.ready_w(w)), until=end,
                           next_time=lambda: inp.next_time(w), on='hostile'):
                return 0 # (bup on waits for this side to go away)
            if inp.ready_r(w):
                x = X.read(0, 65536)
                got.extend(x)
                if not x:
                    return 0
                continue
            try:
                pos += X.write(1, stream[pos:pos + 4096])
            except BrokenPipeError:
                pos = len(stream)
    return prog

def files(fs):
    """Everything on the machine that a session may not touch."""
    res = {}
    for p, i in fs.tree(b'/'):
        if p.startswith((b'/r/objects/pack/', b'/r/refs/', b'/root/', b'/dev')):
            continue
        if i.entries is not None:
            res[p] = ('dir', i.mode)
        elif p == b'/r/config':
            from sim.programs import parse_config
            res[p] = repr(parse_config(bytes(i.data)))
        else:
            res[p] = (i.mode, bytes(i.data) if i.data is not None else i.target)
    return res

def build(l):
    for h in (b'/r', b'/r2'):
        lab.ok(lab.bup(l.w, l.host, '-d', h, 'init'), 'init')
    sec = SECRET + bytes(range(200))
    def data(x):
        return subrng(1, x).randbytes(3000)
    for n, (repo, br, args, d) in enumerate(((b'/r', 'main', [], data(1)), (b'/r', 'main', [], data(2) + sec), (b'/r', 'other', [], data(3)), (b'/r', 'beef', [], data(4)),
                                          (b'/r2', 'main', [], SECRET2 + data(5)))):
        for name, c in ((b'a', sec if repo == b'/r' else SECRET2 + bytes(99)), (b'b', d)):
            l.host.fs.put(SRC + b'/' + name, c)
        lab.ok(lab.bup(l.w, l.host, '-d', repo, 'index', '-f', '/tmp/idx%d' % n, '/src'), 'index')
        lab.ok(lab.bup(l.w, l.host, '-d', repo, 'save', '-f', '/tmp/idx%d' % n, '-n', br, '/src'), 'save')
        l.w.now += 5 * SEC
    lab.ok(lab.bup(l.w, l.host, 'tag', 't', 'other'), 'tag')
    d = l.host.fs.lookup(b'/')
    l.host.fs.create(d, b'link', 0o120777, target=b'/r2')

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
    build(l)
    if 'deduplicate-writes = false' in plan['cfg']['config']:
        rec.probe('no-dedup')
    bup = l.w.programs[b'bup']
    for n, s in enumerate(plan['sessions']):
        mode = s['mode']
        fs = l.host.fs
        rec.probe(mode if mode != 'noname' else 'no-name')
        refname = b'refs/heads/' + s['name'].encode()
        before, r0 = files(fs), Repo(fs)
        refs0, objs0, packs0 = r0.refs(), dict(r0.objs), set(r0.packs)
        o0 = Repo(fs, b'/r2')
        saved = fs.clone() if mode == 'get' else None
        ev = Evil(fs, s, rec, refname)
        stream = ev.stream()
        got = bytearray()
        prog = hostile(stream, got)
        def wrapped(p):
            if p.host is l.srv and p.argv[1:2] == [b'on--server']:
                return prog(p)
            return bup(p)
        l.w.programs[b'bup'] = wrapped
        args = {'save': ['save', '-n', s['name'], '/src'], 'split': ['split', '-n', s['name'], '/src/a'], 'restore': ['restore', '-C', '/tmp/out', '/main/latest/.'],
                'get': ['get', '-s', '/x', '--ff', 'main'], 'noname': ['split', '-t', '/src/a']}[mode]
        what = f'session {n}, bup on srv {args}, {s["ops"]}' + (f', mutated ({s["mutate"]})' if s['mutate'] else '')
        p = lab.start(l.w, l.host, [b'bup', b'on', b'srv', *[a.encode() for a in args]])
        try:
            l.w.run(p)
            lab.settle(l.w)
        except SimHang as ex:
            raise Violation('hang', f'{what}: {ex}')
        r = lab.result(p)
        if l.w.harness_errors:
            raise HarnessError(str(l.w.harness_errors[0]))
        rec.trials += 1
        if b'CommandDenied' in r.err:
            rec.probe('denied')
        rec.state(mode, tuple(o[0] + str(o[1] if o[0] != 'objects' else len(o[1])) for o in s['ops']), s['mutate'], r.rc, b'CommandDenied' in r.err)
        # nothing else on the machine
        after = files(fs)
        for f in sorted(set(before) | set(after)):
            if before.get(f) != after.get(f) and not (f.startswith(b'/tmp/') and mode == 'get'):
                if mode == 'get' and f.startswith((b'/r/', b'/link')):
                    continue
                raise Violation('file', f'{what}: {dec(f)} changed: {str(before.get(f))[:80]} -> {str(after.get(f))[:80]}')
        o1 = Repo(fs, b'/r2')
        if o1.refs() != o0.refs() or sorted(o1.packs) != sorted(o0.packs):
            raise Violation('other-repo', f'{what}: the other repository changed')
        if SECRET2 in got:
            raise Violation('read', f'{what}: data of another repository was sent')
        r1 = Repo(fs)
        if mode == 'get':
            for o in sorted(ev.badcrc) if not s['mutate'] else ():
                if o in r1.where and o not in r0.where:
                    raise Violation('crc', f'{what}: object {o.hex()} was stored, which failed its checksum')
            l.use_fs('host', saved) # (get may do anything within its repository)
            continue
        refs1 = r1.refs()
        mine = refname if mode in ('save', 'split') else None
        for f in sorted(set(refs0) | set(refs1)):
            a, b = refs0.get(f), refs1.get(f)
            if a == b:
                continue
            if f != mine:
                raise Violation('ref', f'{what}: {dec(f)} moved from {a.hex() if a else a} to {b.hex() if b else b}')
            if b is None:
                raise Violation('ref', f'{what}: {dec(f)} was deleted')
            if a is None:
                rec.probe('created')
            else:
                rec.probe('moved')
                if a not in ancestors(r1, b):
                    raise Violation('ref', f'{what}: {dec(f)} moved from {a.hex()} to {b.hex()}, which is not a descendant')
            t = r1.objs.get(b, (None,))[0]
            if t != b'commit':
                raise Violation('ref', f'{what}: {dec(f)} moved to {b.hex()}, which is {t}')
        if refs0 == refs1:
            rec.probe('not-moved')
        elif s['ops'][:2] == HONEST:
            rec.probe('honest')
        for st in sorted(packs0):
            if st not in r1.packs:
                raise Violation('pack', f'{what}: {dec(st)} was removed')
        for o, v in objs0.items():
            if r1.objs.get(o) != v:
                raise Violation('object', f'{what}: object {o.hex()} reads differently')
        for f, x in r1.problems:
            if (f, x) in r0.problems:
                continue
            for o in objs0:
                if o.hex() in x:
                    raise Violation('shadowed', f'{what}: {dec(f)} has another content for an existing object: {x}')
            raise Violation('damaged', f'{what}: {dec(f)}: {x}')
        if mode == 'restore' and sorted(r1.packs) != sorted(packs0):
            raise Violation('pack', f'{what}: a pack was added during a restore')
        if mode != 'restore' and (SECRET in got or any(zlib.compress(SECRET)[2:12] in got for _ in (1,))):
            raise Violation('read', f'{what}: file content was sent')
        if s['ops'] == HONEST and not s['mutate'] and mode in ('save', 'split') and s['name'] == 'main' and refs0 == refs1:
            raise Violation('refused', f'{what}: an honest upload was refused: exit {r.rc}: {r.err[-400:].decode("utf-8", "replace")}')
    rec.world(l.w)
    l.close()

def ancestors(r, oid):
    seen, todo = set(), [oid]
    while todo:
        o = todo.pop()
        if o in seen or r.objs.get(o, (None,))[0] != b'commit':
            continue
        seen.add(o)
        # (as git reads it: parents directly follow the tree)
        ls = r.objs[o][1].split(b'\n')[1:]
        for x in ls:
            if not x.startswith(b'parent '):
                break
            todo.append(bytes.fromhex(x[7:47].decode()))
    return seen
