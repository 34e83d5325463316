"""Damaged and missing objects are never read silently."""

import stat

from .common import *
from .p04 import outcome
from .p12 import Remote
from sim import programs
from sim.kernel import SinkDesc

ID = 'P19'
RULE = ('A plan is a history of saves and splits, and commands that read it: restore (all of a save, directories, files, sparse), join (by tree, commit, branch, list), '
        'cat-file (content, --meta, --bupm), ls, ftp and get, locally or with a repository on another machine (ssh, bup://, bup on). Each runs once on the intact '
        'repository, and then, each time from the same state, after objects were lost or damaged (objects left out of packs, flipped bits in what is stored of an object '
        'including its type and length, changed ids in an index, truncated or missing packs and indexes, other trailers), or while reads by git or the server fail or git '
        'dies. Exit status 0 requires exactly the output of the intact repository; otherwise what was written of a file must be the beginning of it, and what get stored '
        'must be complete; and when all that is damaged is not among what the command needs, it must succeed. '
        'Distinct non-trivial: different (command, place, damage, kind of object, outcome) combinations.')
ASSUMPTIONS = ['the stored type of an object that is joined by its id is not damaged', 'git does not verify the ids of packed objects: offsets in an index are not damaged', 'git writes the header of a damaged object before it dies, and checks that a pack '
               'and its index belong together']
SHRINK = ['pre', 'pre.*.1', 'reads']
PROBES = ['restore', 'join', 'cat', 'meta', 'bupm', 'ls', 'ftp', 'get', 'ssh', 'bup', 'on', 'noticed', 'harmless', 'unneeded', 'commit', 'tree', 'bupm-object', 'chunk', 'chunk-tree',
          'missing', 'flip', 'type', 'pack', 'fault', 'split-tree', 'partial-file']
LEVEL = 'seeded search against the intact repository'
WHAT = ('commit', 'tree', 'bupm', 'chunk', 'chunk', 'chunktree', 'chunktree', 'any')

def damage(rng):
    x = rng.random()
    if x < .2:
        return ['fault', rng.choice(('err', 'err', 'kill', 'short')), rng.random(), rng.random() < .3]
    k = rng.choice(('missing', 'missing', 'flip', 'flip', 'flip', 'type', 'type', 'idxid', 'trunc', 'trailer', 'rmpack', 'rmidx', 'idxtrunc', 'empty'))
    return [k, rng.choice(WHAT), rng.choice(('needed', 'needed', 'needed', 'other')), rng.random(), rng.randrange(1 << 30)]

def plan(rng, tier, i):
    cfg = base_cfg(rng, srv=True)
    cfg['gran'] = 1
    cfg['config'] = '[bup "split"]\n\tfiles = legacy:%d\n' % rng.choice((13, 13, 13, 15)) + ('\ttrees = true\n' if rng.random() < .4 else '') + \
        '[pack]\n' + ('\tpackSizeLimit = %d\n' % rng.choice((5000, 40000)) if rng.random() < .5 else '') + ('\tcompression = %d\n' % rng.choice((0, 1, 9)) if rng.random() < .5 else '')
    cfg['srv_config'] = cfg['config']
    g = treegen(rng, rich=rng.random() < .4, big=.2, maxsize=90000)
    pre = []
    for n in range(rng.choice((1, 2, 2, 3))):
        e = g.edits(rng.randint(3, 12) if n == 0 else rng.randint(1, 4))
        if n == 0 and rng.random() < .35:
            e.append(['many', '', rng.choice(('m', '*')), rng.choice((60, 200, 500, 900)), rng.randrange(1000)])
            gen.apply_edit(g.fs, g.base, e[-1])
        pre += [['fs', e], B('index', '/src'), B('save', '-n', 'main', '/src'), ['sleep', 3 * SEC]]
    pre.append(B('split', '-n', 'sp', *fan(rng), stdin=gen.rand_spec(rng, .5, 120000)))
    if rng.random() < .4:
        pre.append(B('tag', 'tg', 'main'))
    reads = []
    for _ in range(rng.randint(2, 3)):
        op = rng.choice(('restore', 'restore', 'restore', 'join', 'join', 'cat', 'meta', 'bupm', 'ls', 'ls', 'ftp', 'get', 'get'))
        where = rng.choice(('local', 'local', 'local', 'ssh', 'bup', 'on')) if op in ('restore', 'join', 'ls', 'get') else 'local'
        if where == 'on' and op != 'restore' or op == 'ls' and where == 'bup':
            where = 'ssh'
        reads.append({'op': op, 'where': where, 'pick': rng.random(), 'save': rng.random(), 'how': rng.randrange(1 << 16),
                      'trials': [[damage(rng) for _ in range(rng.choice((1, 1, 1, 2)))] for _ in range(rng.randint(3, 5))]})
    return {'cfg': cfg, 'pre': pre, 'reads': reads, 'tseed': rng.randrange(1 << 30)}

def sample(p):
    return {'config': p['cfg']['config'], 'reads': p['reads'][:3], 'edits': p['pre'][0]}

# ---------------------------------------------------------------- what is needed

def blobs(r, oid, mode):
    """Objects of a (possibly chunked) file."""
    res = {oid}
    if stat.S_ISDIR(mode):
        for m, n, o in r.tree(oid):
            res |= blobs(r, o, m)
    return res

def dirobjs(r, oid):
    """Objects that make up a directory itself: its (split) trees and metadata."""
    res = {oid}
    for m, n, o in r.tree(oid):
        if n == b'.bupm':
            res |= blobs(r, o, m)
        elif n.endswith(b'.bupd'):
            res |= dirobjs(r, o)
    return res

def walk_to(r, tree, path):
    """(objects on the way, kind, mode, oid) of a path in a saved tree."""
    on = dirobjs(r, tree)
    kind, mode, oid = 'dir', 0o40000, tree
    for part in path.split(b'/'):
        if not part:
            continue
        kind, mode, oid = r.dir(oid)[part]
        if kind == 'dir':
            on |= dirobjs(r, oid)
    return on, kind, mode, oid

def kinds(r):
    """{object: what it is}"""
    k = {}
    def file(oid, mode, what):
        k[oid] = what if what == 'bupm' else 'chunktree' if stat.S_ISDIR(mode) else 'chunk'
        if stat.S_ISDIR(mode):
            for m, n, o in r.tree(oid):
                file(o, m, what)
    def tree(oid):
        if oid in k:
            return
        k[oid] = 'tree'
        for m, n, o in r.tree(oid):
            if n == b'.bupm':
                file(o, m, 'bupm')
            elif stat.S_ISDIR(m) and not n.endswith(b'.bup'):
                tree(o)
            else:
                file(o, m, 'chunk')
    for n, o in r.refs().items():
        for c in r.history(o):
            k[c] = 'commit'
            tree(r.commit(c)['tree'])
    return k

class Read:
    """A command that reads."""
    def __init__(self, plan, rd, r):
        self.rd = rd
        self.where = rd['where']
        self.op = rd['op']
        rng = subrng(rd['how'], 'read')
        main = r.history(r.refs()[b'refs/heads/main'])
        sp = r.history(r.refs()[b'refs/heads/sp'])
        n = int(rd['save'] * len(main))
        c = main[n]
        tree = r.commit(c)['tree']
        name = 'latest' if n == 0 and rng.random() < .7 else dec(lab.save_names(r, main)[n])
        tip = r.commit(main[0])['tree']
        base = set(main) | dirobjs(r, tip)
        _, _, _, src = walk_to(r, tree, b'src')
        content = r.content(src)
        self.content = content
        paths = sorted(p for p in content)
        files = sorted(p for p, (k, _) in content.items() if k == 'file')
        dirs = sorted(p for p, (k, _) in content.items() if k == 'dir')
        def pick(l):
            return l[int(rd['pick'] * len(l))]
        op = self.op
        self.out = None
        self.empty = False
        self.named = set() # objects given by id: nothing says what type they have
        self.prefix = None # of what is written, all of which must be right
        if op == 'restore':
            p = pick(rng.choice((paths, files or paths, [b''], [b''])))
            on, kind, mode, oid = walk_to(r, tree, b'src/' + p)
            self.dot = dot = kind == 'dir' and rng.random() < .5
            path = '/main/' + name + '/src' + ('/' + dec(p) if p else '') + ('/.' if dot else '')
            if not p and not dot and rng.random() < .3:
                path = '/main/' + name
                oid = tree
            self.need = base | on | (r.closure(oid)[0] if kind == 'dir' else blobs(r, oid, mode))
            self.at = p
            self.args = ['restore', *(['--sparse'] if rng.random() < .3 else []), '-C', '/tmp/out', path]
            self.out = b'/tmp/out'
        elif op == 'join':
            k = rng.choice(('tree', 'commit', 'branch', 'blobs', 'file', 'file'))
            data = r.dir(r.commit(sp[0])['tree'])[b'data']
            t = r.commit(sp[0])['tree']
            if k == 'tree':
                a, self.need = [t.hex()], r.closure(t)[0]
            elif k == 'commit':
                a, self.need = [sp[0].hex()], {sp[0]} | r.closure(t)[0]
            elif k == 'branch':
                a, self.need = ['sp'], {sp[0]} | r.closure(t)[0]
            elif k == 'file' and files:
                _, kind, mode, oid = walk_to(r, src, pick(files))
                a, self.need = [oid.hex()], blobs(r, oid, mode)
            else:
                bl = sorted(o for o in blobs(r, data[2], data[1]) if r.type(o) == b'blob')
                a, self.need = [o.hex() for o in bl], set(bl)
            self.args = ['join', *a]
            self.named = {sp[0]} if k == 'branch' else {bytes.fromhex(x) for x in a}
            self.prefix = True
        elif op in ('cat', 'meta', 'bupm'):
            p = pick({'cat': files, 'meta': paths, 'bupm': dirs}[op] or dirs)
            on, kind, mode, oid = walk_to(r, tree, b'src/' + p)
            self.empty = content[p][1] == b''
            if op == 'cat' and kind != 'file':
                op = self.op = 'meta'
            self.need = base | on | (blobs(r, oid, mode) if op != 'bupm' and kind != 'dir' else set())
            self.args = ['cat-file', *([] if op == 'cat' else ['--' + op]), '/main/' + name + '/src/' + dec(p)]
            self.prefix = True
        elif op == 'ls':
            p = pick(rng.choice((dirs, paths)))
            on, kind, mode, oid = walk_to(r, tree, b'src/' + p)
            path = '/main/' + name + '/src/' + dec(p)
            self.need = base | on | r.closure(oid)[0]
            k = rng.random()
            if k < .1:
                path = '/main'
                self.need = set(r.closure(main[0])[0])
            elif k < .2:
                path = '/'
                self.need = set(r.objs)
            o = rng.sample(['-l', '-s', '-a', '-A', '-F', '-d', '-n', '--commit-hash', '--human-readable'], rng.choice((0, 1, 2, 3)))
            self.args = ['ls', *o, path]
        elif op == 'ftp':
            if not files:
                files = [b'']
            p = pick(files)
            on, kind, mode, oid = walk_to(r, tree, b'src/' + p)
            self.need = base | on | (blobs(r, oid, mode) if kind == 'file' else set())
            self.empty = p in content and content[p][1] == b''
            if kind != 'file' or set(p) & set(b' \t\r\n\'"\\') or not p.isascii():
                self.args = ['ftp', 'ls /main/' + name]
            elif rng.random() < .5:
                self.args = ['ftp', 'cat /main/' + name + '/src/' + dec(p)]
                self.prefix = True
            else:
                self.args = ['ftp', 'get /main/' + name + '/src/' + dec(p) + ' /tmp/out']
                self.out = b'/tmp/out'
                self.at = p
        else:
            k = rng.choice(('append', 'ff', 'pick', 'tag', 'copy'))
            self.need = set(r.closure(main[0])[0])
            src_ = {'append': ['--append:', '/main', 'new'], 'ff': ['--ff:', '/main', 'new'], 'pick': ['--force-pick:', '/main/' + name, 'new'], 'tag': ['--new-tag:', '/main/' + name, '.tag/x'],
                    'copy': ['--copy', '--append:', '/main', 'new']}[k]
            self.get = src_
        self.tolerated = op == 'ftp' # (reports errors and goes on)

    def run(self, plan, l):
        """(exit status, what it gave: stdout, snapshot of the output, or the content of a repository)"""
        w = l.w
        args = list(self.args) if self.op != 'get' else None
        host, cmd = l.host, None
        kw = {'out': SinkDesc()}
        if self.where == 'bup':
            Remote({'mode': 'bup'}, l)
        url = {'ssh': 'srv:/r', 'bup': 'bup://srv/r'}.get(self.where)
        dest = None
        if self.op == 'get':
            if self.where == 'local':
                args, dest = ['-d', '/r2', 'get', '-s', '/r', *self.get], (l.host, b'/r2')
            else: # (what is read is local)
                args, dest = ['-d', '/r2', 'get', '-s', '/r', '-r', url, *self.get], (l.srv, b'/r')
        elif url:
            args[1:1] = ['-r', url]
        elif self.where == 'on':
            args[:0] = ['on', 'srv']
        if self.out is not None:
            oh = l.srv if self.where == 'on' else l.host
        try:
            p = lab.start(w, host, [b'bup', *map(enc, args)], **kw)
            w.run(p)
            lab.settle(w)
        except SimHang as ex:
            raise Violation('hang', f'bup {" ".join(args)}: {ex}')
        if w.harness_errors:
            raise HarnessError(str(w.harness_errors[0]))
        r = lab.result(p)
        self.line = 'bup ' + ' '.join(args)
        if dest:
            h, path = dest
            rr = Repo(h.fs, path)
            c = closure_problem(rr)
            try:
                got = outcome(rr)
            except (Bad, Missing) as ex:
                got = str(ex)
            return r, (got, c)
        if self.out is not None:
            if oh.fs.lookup(self.out) is None:
                return r, None
            if self.op == 'ftp':
                return r, {b'': {'data': bytes(oh.fs.lookup(self.out).data)}}
            s = snapshot(oh.fs, self.out)
            if not self.dot:
                s[b''].pop('mtime')
            return r, s
        return r, r.out

    def check(self, r, got, want, rec):
        """Of what was written with an error."""
        if self.op == 'get':
            if got[1] is not None:
                raise Violation('incomplete', f'the destination is not complete: {got[1]}')
            for n in got[0]:
                if n.endswith(b'new') or n.endswith(b'/x'):
                    if got[0][n] != want[0].get(n):
                        raise Violation('ref', f'{dec(n)} holds something else')
        elif self.out is not None:
            for p, d in (got or {}).items():
                if want is None or p not in want:
                    raise Violation('other', f'{p!r} was not saved')
                x = want[p]
                if 'data' in d:
                    if not x.get('data', b'').startswith(d['data']):
                        raise Violation('wrong', f'{p!r} holds {len(d["data"])} bytes that are not the beginning of the {len(x.get("data", b""))} saved')
                    if d['data'] != x['data']:
                        rec.probe('partial-file')
                if 'target' in d and d['target'] != x.get('target'):
                    raise Violation('wrong', f'{p!r} has another target')
        elif self.prefix:
            if self.op == 'ftp' and got.endswith(b'\n') and b'error: ' in got: # (goes on)
                got = got[:got.rindex(b'error: ')]
            if not want.startswith(got):
                raise Violation('wrong', f'the output ({len(got)} bytes) is not the beginning of the right one ({len(want)} bytes)')

# ---------------------------------------------------------------- damage

def drop_idx(fs, d, stem, names=(b'.pack', b'.idx')):
    for x in names:
        e = d.entries.get(stem + x)
        if e is not None:
            fs.unlink(d, stem + x, e)

def do_damage(fs, dm, r, kind, need, named):
    """Returns (affected objects, text)."""
    what, whom, where, pos, seed = dm
    rng = subrng(seed, 'damage')
    cand = sorted(o for o in r.objs if (whom == 'any' or kind.get(o) == whom))
    # (a needed object, or one that is not)
    some = [o for o in cand if (o in need) == (where == 'needed')] or cand
    if not some:
        return set(), None
    d = fs.lookup(b'/r/objects/pack')
    oid = some[int(pos * len(some))]
    stems = [s for s in r.where[oid] if s + b'.idx' in d.entries]
    if not stems:
        return set(), None
    hit = {oid}
    text = f'{what}: {kind.get(oid, "?")} {oid.hex()[:10]}'
    for stem in stems: # (all copies)
        pk, ix = d.entries.get(stem + b'.pack'), d.entries.get(stem + b'.idx')
        if pk is None or ix is None:
            continue
        path = b'/r/objects/pack/' + stem
        try:
            idx = programs.Idx(bytes(ix.data))
            k = idx.find(oid)
        except programs.BadPack: # (already damaged)
            continue
        if what == 'missing':
            objs = [tc for o, tc in r.packs[stem].items() if o != oid and idx.find(o) is not None]
            drop_idx(fs, d, stem)
            if objs:
                l = lab.add_objects(fs, b'/r', objs)
                # (its name is that of its objects: a later loss finds it)
                n = next(k[:-4] for k in d.entries if k.endswith(b'.idx') and k[:-4] not in r.packs)
                r.packs[n] = {o: r.objs[o] for o in l}
                for o in l:
                    r.where[o] = r.where[o] + [n]
            continue
        if k is None:
            continue
        b = bytearray(pk.data)
        off = idx.offset(k)
        if off >= len(b) - 20:
            continue
        if what in ('flip', 'type'):
            end = min([len(b) - 20] + [idx.offset(j) for j in range(idx.n) if idx.offset(j) > off])
            if what == 'flip':
                for _ in range(rng.choice((1, 1, 2, 5))):
                    b[off + rng.randrange(min(end - off, rng.choice((4, 30, 1 << 30))))] ^= 1 << rng.randrange(8)
            elif oid not in named:
                b[off] ^= rng.choice((0x10, 0x10, 0x20, 0x40, 0x30, 0x50, 0x60, 0x70))
            if oid in named:
                b[off] = b[off] & 0x8f | pk.data[off] & 0x70
            fs.put(path + b'.pack', bytes(b))
        elif what == 'idxid':
            x = bytearray(ix.data)
            x[idx.sha0 + 20 * k + rng.randrange(20)] ^= 1 << rng.randrange(8)
            fs.put(path + b'.idx', bytes(x))
            hit |= set(r.packs[stem])
        else:
            hit |= set(r.packs[stem])
            if what == 'trunc':
                fs.put(path + b'.pack', bytes(b[:rng.randrange(len(b))]))
            elif what == 'empty':
                fs.put(path + rng.choice((b'.pack', b'.idx')), b'')
            elif what == 'trailer':
                b[-1 - rng.randrange(20)] ^= 1 << rng.randrange(8)
                fs.put(path + b'.pack', bytes(b))
            elif what == 'idxtrunc':
                fs.put(path + b'.idx', bytes(ix.data)[:rng.randrange(len(ix.data))])
            elif what == 'rmpack':
                drop_idx(fs, d, stem, (b'.pack',))
            elif what == 'rmidx':
                drop_idx(fs, d, stem, (b'.idx',))
    return hit, text

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], frag='none', trace=plan.get('trace')))
    lab.ok(l.bup('-d', '/r2', 'init'))
    l.add_config(l.host, b'/r2', plan['cfg']['config'])
    run_pre(l, plan['pre'])
    fs = l.host.fs
    r = Repo(fs)
    must_complete(r, 'at the start')
    if b'refs/heads/main' not in r.refs() or b'refs/heads/sp' not in r.refs():
        return
    kind = kinds(r)
    if any(n.endswith(b'.bupd') for o in r.objs if r.type(o) == b'tree' for _, n, _ in r.tree(o)):
        rec.probe('split-tree')
    state = {n: h.fs for n, h in l.w.hosts.items()}
    now = l.w.epoch + l.w.now
    rec.world(l.w)
    l.close()
    for n, rd in enumerate(plan['reads']):
        read(plan, rec, state, now, r, kind, rd, n)

def lab_for(plan, state, now, rd, damage=None):
    l = Lab(dict(plan['cfg'], epoch=now + 10 * SEC, seed=rd['how'], trace=plan.get('trace')), fs=state['host'].clone())
    src = l.host.fs
    if damage:
        damage(src)
    s = state['srv'].clone()
    if rd['where'] in ('ssh', 'bup') and rd['op'] != 'get':
        s.remove_tree(b'/r')
        for p, i in src.tree(b'/r'):
            if i.entries is not None:
                s.mkdirs(p)
            elif i.data is not None:
                s.put(p, bytes(i.data))
        src.remove_tree(b'/r')
        src.mkdirs(b'/r')
    l.use_fs('srv', s)
    return l

def read(plan, rec, state, now, r, kind, rd, n):
    rec.probe(rd['op'])
    rec.probe(rd['where'])
    rr = Read(plan, rd, r)
    l = lab_for(plan, state, now, rd)
    seen = {}
    def count(p, call, path, info):
        if call in ('read', 'open', 'fstat', 'listdir') and path is not None and path.startswith(b'/r/') and (p.prog == b'git' or 'server' in p.name()):
            k = (p.name(), call)
            seen[k] = seen.get(k, 0) + 1
    l.w.observers.append(count)
    res, want = rr.run(plan, l)
    if res.rc:
        if rd['op'] == 'get' and b'config' in res.err or rr.empty and rr.op in ('cat', 'ftp'): # (a special file)
            return
        raise Violation('failed', f'{rr.line} exited {res.rc}: {res.err[-500:].decode("utf-8", "replace")}')
    if rr.op == 'get' and (want[1] or not any(k.endswith((b'new', b'x')) for k in want[0])):
        raise Violation('failed', f'{rr.line}: {want}')
    rec.world(l.w)
    l.close()
    for k, t in enumerate(rd['trials']):
        if not t:
            continue
        hit, texts = set(), []
        faults = []
        if plan.get('only') and plan['only'] != [n, k]:
            continue
        rec.trials += 1
        r2 = Repo.__new__(Repo)
        r2.__dict__.update(r.__dict__, packs=dict(r.packs), where=dict(r.where))
        def dmg(fs):
            for d in t:
                if d[0] != 'fault':
                    h, x = do_damage(fs, d, r2, kind, rr.need, rr.named)
                    if x:
                        hit.update(h)
                        texts.append(x)
                        rec.fault('damage-' + d[0])
                        rec.probe(d[0] if d[0] in ('missing', 'flip', 'type') else 'pack')
                        rec.probe({'bupm': 'bupm-object', 'chunktree': 'chunk-tree'}.get(d[1], d[1]))
        l = lab_for(plan, state, now, rd, dmg)
        for d in t:
            if d[0] == 'fault' and seen:
                ks = sorted(seen)
                prog, call = ks[int(d[2] * len(ks)) % len(ks)]
                spec = {'prog': prog, 'calls': [call], 'under': '/r', 'nth': int(d[2] * 7919 % 1 * seen[prog, call]), 'action': d[1], 'errno': 'EIO', 'persist': d[3]}
                if d[1] == 'kill' and 'server' in prog:
                    spec['action'] = 'err'
                if d[1] == 'short' and call != 'read':
                    spec['action'] = 'err'
                faults.append(Fault(spec))
                l.w.faults.append(faults[-1])
        res, got = rr.run(plan, l)
        faults = [f for f in faults if f.fired]
        for f in faults:
            rec.probe('fault')
            rec.fault('read-' + f.spec['action'])
            texts.append(f'{f.spec["action"]} at {f.where}')
        what = f'{rr.line} after {"; ".join(texts) or "nothing"} (exit {res.rc})'
        try:
            judge(rr, rec, res, got, want, hit, faults)
        except Violation as ex:
            ex.msg = f'{what}: {ex.msg} [{res.err[-300:].decode("utf-8", "replace")}]'
            ex.pin = {'only': [n, k]}
            raise
        rec.state(rr.args[:2] if rr.op == 'ls' else rr.op, rd['where'], [x.split(':')[0] for x in texts], [d[1] for d in t], res.rc, bool(hit & rr.need))
        rec.world(l.w)
        l.close()

def judge(rr, rec, res, got, want, hit, faults):
    needed = hit & rr.need
    if res.rc == 0 and not (rr.tolerated and got != want and b'error' in res.out + res.err):
        if got != want:
            if rr.op == 'get':
                raise Violation('silent', f'exit status 0, but the destination differs: {got[1]}')
            if rr.out is not None:
                raise Violation('silent', 'exit status 0, but ' + '; '.join(diff_snap(want or {}, got or {}, ('intact', 'damaged'))[:3]))
            raise Violation('silent', f'exit status 0, but the output is {got[:300]!r} instead of {want[:300]!r}')
        rec.probe('harmless' if needed else 'unneeded' if hit else 'unaffected')
        return
    if not needed and not faults:
        raise Violation('refused', 'fails, but does not need anything damaged')
    rec.probe('noticed')
    rr.check(res, got, want, rec)
