"""Browsing a repository gives what was saved, however long it goes on."""

import stat, types

from .common import *
from sim import simlibs

ID = 'P20'
RULE = ('A plan is a history of saves and splits, a process that browses the repository for a long time (the VFS used directly, locally or with a repository on another '
        'machine; the file system of bup fuse; the handlers of bup web) with a cache of random size, dozens of lookups (paths with "..", ".", repeated slashes, links, '
        'missing names, relative to what was found before), listings, reads at random offsets of several files at once, sizes and link targets, and saves, splits, tags '
        'and caches made by other processes meanwhile, under seeded schedules; git may fail or die once. Every answer is compared with a model of the tree: the saves of '
        'one tip that the branch has had, and below a save exactly the names, kinds, metadata, sizes and content of the source when it was saved. '
        'Distinct non-trivial: different (reader, operation, kind of item, evictions, staleness) combinations.')
ASSUMPTIONS = ['a long-lived reader may go on showing an earlier tip of a branch', 'reads do not start beyond the end of a file (the kernel does not ask for that)']
SHRINK = ['pre', 'pre.*.1', 'acts', 'acts.*.1']
PROBES = ['vfs', 'remote', 'fuse', 'web', 'resolve', 'relative', 'contents', 'names', 'read', 'seek', 'size', 'readlink', 'missing', 'loop', 'notdir', 'dotdot', 'link', 'chunky', 'split-tree',
          'evict', 'stale', 'new-save', 'fault', 'error', 'old-parent', 'moved-parent', 'tag']
LEVEL = 'seeded search against a model of the tree'

def plan(rng, tier, i):
    kind = rng.choice(('vfs', 'vfs', 'vfs', 'remote', 'fuse', 'fuse', 'web'))
    cfg = base_cfg(rng, srv=True)
    cfg['gran'] = 1
    cfg['frag'] = 'none' if rng.random() < .7 else 'mixed'
    cfg['config'] = cfg['srv_config'] = '[bup "split"]\n\tfiles = legacy:%d\n' % rng.choice((13, 13, 13, 15)) + ('\ttrees = true\n' if rng.random() < .4 else '') + \
        ('[pack]\n\tpackSizeLimit = %d\n' % rng.choice((5000, 40000)) if rng.random() < .5 else '')
    to = ['-r', 'srv:/r'] if kind == 'remote' else []
    own = {'host': 'srv'} if kind == 'remote' else {}
    g = treegen(rng, rich=rng.random() < .5, big=.25, maxsize=90000)
    pre, acts = [], []
    def save(out, n, first):
        e = g.edits(n)
        if first and rng.random() < .3:
            e.append(['many', '', rng.choice(('m', '*')), rng.choice((60, 200, 500, 900)), rng.randrange(1000)])
            gen.apply_edit(g.fs, g.base, e[-1])
        for k in range(rng.choice((0, 0, 1, 2))): # links, also ones that lead elsewhere
            e.append(['sym', rng.choice(('l%d', 'd/l%d')) % rng.randrange(3),
                      rng.choice(('.', '..', 'l0', 'l1', './l2', '/main/latest/src', '/sp/latest/data', '../src/a', 'zz', 'a', 'b/', 'd', 'd/..', '/.tag/tg/src', '/', '../../../..', 'l0/l1'))])
            gen.apply_edit(g.fs, g.base, e[-1])
        out += [['fs', e], B('index', '/src'), B('save', *to, '-n', 'main', '/src')]
        if rng.random() < .7:
            out.append(['sleep', 3 * SEC])
    for n in range(rng.choice((1, 2, 2, 3))):
        save(pre, rng.randint(3, 10) if n == 0 else rng.randint(1, 4), n == 0)
    pre.append(B('split', *to, '-n', 'sp', *fan(rng), stdin=gen.rand_spec(rng, .5, 90000)))
    pre.append(['bup', ['tag', 'tg', 'main'], dict(own, rc=['any'])])
    nops = rng.choice((20, 40, 80)) if tier == 'quick' else rng.choice((40, 80, 200))
    chase = kind == 'vfs' and rng.random() < .35
    at = sorted(rng.randrange(nops) for _ in range(rng.choice((2, 3, 4, 5) if chase else (0, 1, 2, 3, 4))))
    for k in at:
        o = []
        x = rng.random()
        if x < .7:
            save(o, rng.randint(1, 4), False)
            if rng.random() < (.9 if chase else .4):
                o.append(['bup', ['tag', '-f', 'tg', 'main'], own])
        elif x < .8:
            o = [['bup', ['tag', '-f', 'tg', 'main'], own]]
        elif x < .9:
            o = [['bup', [rng.choice(('midx', 'bloom')), *rng.choice(([], ['-f']))], own]]
            if o[0][1] == ['midx']:
                o[0][1].append('-a')
        else:
            o = [B('split', *to, '-n', 'sp', *fan(rng), stdin=gen.rand_spec(rng, .5, 50000))]
        acts.append([k, o])
    fault = None
    if kind != 'remote' and rng.random() < .25:
        fault = {'prog': 'git', 'calls': [rng.choice(('read', 'open', 'write'))], 'under': '/r', 'nth': rng.randrange(rng.choice((10, 60))), 'action': rng.choice(('err', 'kill', 'kill')), 'errno': 'EIO'}
        if fault['action'] == 'kill':
            fault.pop('under')
    return {'cfg': cfg, 'kind': kind, 'pre': pre, 'acts': acts, 'nops': nops, 'seed': rng.randrange(1 << 30), 'cache': rng.choice((3, 5, 8)) if chase else rng.choice((1, 2, 3, 5, 10, 30, 30000)), 'chase': chase, 'gate': chase or rng.random() < .4,
            'meta': rng.random() < .6, 'fault': fault, 'tseed': rng.randrange(1 << 30)}

def sample(p):
    return {k: p[k] for k in ('kind', 'nops', 'cache', 'acts')}

# ---------------------------------------------------------------- readers

class Log:
    def __init__(self):
        self.n = 0 # operations so far
        self.ops = []
        self.cached = 0
        self.gate = None # the reader waits before this operation
    def step(self):
        while self.gate is not None and self.n >= self.gate:
            simlibs.STD['time'].sleep(.1)
        self.n += 1

def start_paths():
    return [b'/', b'/main', b'/main/latest', b'/main/latest/src', b'/.tag', b'/.tag/tg', b'/.tag/tg/src', b'/sp/latest', b'/sp/latest/data', b'/main/latest/src/a']

def variant(rng, p):
    x = rng.random()
    if x < .7:
        return p
    parts = p.split(b'/')
    for _ in range(rng.choice((1, 1, 2))):
        i = rng.randrange(1, len(parts) + 1)
        parts[i:i] = rng.choice(([b'.'], [b''], [b'', b''], [b'..'], [parts[i - 1], b'..'], [b'..', parts[i - 1]], [b'zz'], [b'latest'], [b'l0'], [b'l1', b'..']))
    return b'/'.join(parts) or b'/'

def vfs_reader(plan, log):
    rng = subrng(plan['seed'], 'reader')
    def fn(load):
        vfs = load('bup.vfs')
        vfs._cache_max_items = plan['cache']
        repo_ = load('bup.repo')
        def die(msg):
            raise HarnessError(msg)
        repo = repo_.repo_for_location(repo_.main_repo_location(b'srv:/r', die)) if plan['kind'] == 'remote' else repo_.LocalRepo()
        known, seen = start_paths(), []
        found = [] # (index of the lookup, result)
        files = [] # (index, reader)
        def note(*x):
            log.ops.append(x)
        def attempt(f):
            try:
                return f(), None
            except OSError as ex:
                return None, (ex.errno if isinstance(ex, vfs.IOError) else f'{type(ex).__name__}: {ex}')
            except HarnessError:
                raise
            except Exception as ex:
                return None, f'{type(ex).__name__}: {ex}'
        with repo:
            while log.n < plan['nops']:
                log.step()
                op = rng.choice(('resolve', 'resolve', 'resolve', 'relative', 'contents', 'contents', 'names', 'open', 'read', 'read', 'read', 'size', 'readlink', 'meta'))
                wm, follow = rng.random() < .7, rng.random() < .6
                chase = plan['chase'] and rng.random() < .8
                if chase:
                    op = rng.choice(('resolve', 'relative'))
                    wm = follow = True
                if op in ('resolve', 'relative') or not found:
                    parent, pi = None, None
                    path = variant(rng, rng.choice(known[-12:] if rng.random() < .5 else known))
                    if rng.random() < (.5 if chase else .15):
                        path = b'/.tag/tg'
                    elif chase and op == 'resolve': # (to fill the cache)
                        path = b'/zz%d' % rng.randrange(1000)
                    if op == 'relative' and found:
                        dirs = [x for x in found if stat.S_ISDIR(vfs.item_mode(x[1][-1][1]))]
                        tags = [x for x in found if x[1][-1][0] == b'tg']
                        if dirs:
                            pi, parent = rng.choice(dirs[:3] + dirs[-6:])
                            path = rng.choice((b'.', b'..', b'latest', b'src', b'src/a', b'latest/src', b'../latest', b'data', b'../../sp/latest/data', rng.choice(seen) if seen else b'a',
                                               rng.choice(seen) if seen else b'a', b'l0', b'zz', path.rsplit(b'/', 1)[-1] or b'.'))
                            if tags and (chase or rng.random() < .4):
                                pi, parent = tags[-1]
                                wm = True
                                path = rng.choice((b'src', b'src', b'src/l0'))
                    f = rng.choice((vfs.resolve, vfs.resolve, vfs.try_resolve)) if follow else vfs.resolve
                    tr = f is vfs.try_resolve
                    res, err = attempt(lambda: f(repo, path, parent=parent, want_meta=wm) if tr else f(repo, path, parent=parent, want_meta=wm, follow=follow))
                    note('resolve', path, pi, wm, 'try' if tr else follow, res, err)
                    if res and res[-1][1] is not None:
                        found.append((len(log.ops) - 1, res))
                    continue
                i, chain = rng.choice(found[-8:] if rng.random() < .7 else found)
                item = chain[-1][1]
                mode = vfs.item_mode(item)
                if op in ('contents', 'names') and stat.S_ISDIR(mode):
                    names = None
                    if op == 'names':
                        names = set(rng.sample(seen, min(len(seen), rng.choice((1, 2, 3)))) + rng.sample([b'.', b'latest', b'src', b'main', b'zz', b'a'], 2))
                        names = rng.choice((set, list, frozenset))(sorted(names))
                    res, err = attempt(lambda: list(vfs.contents(repo, item, names, want_meta=wm)))
                    note('contents', i, names, wm, res, err)
                    if res and names is None:
                        base = b'/'.join(n for n, _ in chain)
                        l = [n for n, _ in res if n != b'.']
                        for n in rng.sample(l, min(len(l), 4)):
                            known.append(base + b'/' + n)
                            seen.append(n)
                elif op == 'open' and stat.S_ISREG(mode) and isinstance(item, (vfs.Item, vfs.Chunky)):
                    if len(files) > 3:
                        files.pop(0)[1].close()
                    res, err = attempt(lambda: vfs.fopen(repo, item))
                    if err is not None:
                        note('open', i, err)
                    else:
                        files.append((i, res, len(log.ops)))
                elif op == 'read' and files:
                    i, f, fid = rng.choice(files)
                    pos = None
                    if rng.random() < .5:
                        size, err = attempt(lambda: vfs.item_size(repo, dict(found)[i][-1][1]))
                        if err is None:
                            pos = rng.choice((0, size, size + 1, rng.randrange(size + 1), rng.randrange(size + 1), -1, max(0, size - 1)))
                            at, err = attempt(lambda: f.seek(pos))
                            note('seek', i, pos, f.tell(), err)
                    at = f.tell()
                    n = rng.choice((0, 1, 7, 100, 4096, 8192, 65536, -1, -1))
                    res, err = attempt(lambda: f.read(n))
                    note('read', i, at, n, res, f.tell(), err)
                elif op == 'size':
                    res, err = attempt(lambda: vfs.item_size(repo, item))
                    note('size', i, res, err)
                elif op == 'readlink' and stat.S_ISLNK(mode):
                    res, err = attempt(lambda: vfs.readlink(repo, item))
                    note('readlink', i, res, err)
                elif op == 'meta':
                    pub, inc = rng.random() < .5, rng.random() < .5
                    res, err = attempt(lambda: vfs.ensure_item_has_metadata(repo, item, include_size=inc, public=pub))
                    note('meta', i, inc, pub, res, err)
            for _, f, _ in files:
                f.close()
        log.cached = len(getattr(vfs, "_cache", ()))
        return 'done'
    return fn

def fuse_module():
    m = types.ModuleType('fuse')
    class Fuse:
        def __init__(self, *a, **kw): pass
    class Stat:
        def __init__(self, **kw): self.__dict__.update(kw)
    class Direntry:
        def __init__(self, name, **kw): self.name = name
    m.Fuse, m.Stat, m.Direntry, m.__version__ = Fuse, Stat, Direntry, '1.0.5'
    return m

def fuse_reader(plan, log):
    rng = subrng(plan['seed'], 'reader')
    from os import fsdecode, fsencode
    def fn(load):
        G.world.current.modules['fuse'] = fuse_module()
        vfs = load('bup.vfs')
        vfs._cache_max_items = plan['cache']
        cmd = load('bup.cmd.fuse')
        known = start_paths()
        def attempt(f):
            try:
                return f(), None
            except OSError as ex:
                return None, (ex.errno if isinstance(ex, vfs.IOError) else f'{type(ex).__name__}: {ex}')
            except HarnessError:
                raise
            except Exception as ex:
                return None, f'{type(ex).__name__}: {ex}'
        with load('bup.repo').LocalRepo() as repo:
            f = cmd.BupFs(repo=repo, fake_metadata=not plan['meta'])
            while log.n < plan['nops']:
                log.step()
                # (the kernel looks at every component first, and follows links itself)
                path = rng.choice(known[-12:] if rng.random() < .5 else known)
                if rng.random() < .1:
                    path += b'/zz'
                p = fsdecode(path)
                st, err = attempt(lambda: f.getattr(p))
                log.ops.append(('getattr', path, dict(st.__dict__) if hasattr(st, 'st_mode') else st, err))
                if not hasattr(st, 'st_mode'):
                    continue
                if stat.S_ISDIR(st.st_mode):
                    res, err = attempt(lambda: [e.name if hasattr(e, 'name') else e for e in f.readdir(p, 0)])
                    log.ops.append(('readdir', path, res, err))
                    if res:
                        l = [fsencode(n) for n in res if n not in ('.', '..')]
                        known += [path.rstrip(b'/') + b'/' + n for n in rng.sample(l, min(len(l), 4))]
                elif stat.S_ISLNK(st.st_mode):
                    res, err = attempt(lambda: f.readlink(p))
                    log.ops.append(('readlink', path, fsencode(res) if isinstance(res, str) else res, err))
                elif stat.S_ISREG(st.st_mode):
                    res, err = attempt(lambda: f.open(p, rng.choice((0, 0, 0, 0o100000, 1, 2))))
                    for _ in range(rng.choice((1, 1, 3))):
                        ofs = rng.choice((0, st.st_size, rng.randrange(st.st_size + 1)))
                        n = rng.choice((1, 4096, 65536, 131072))
                        res, err = attempt(lambda: f.read(p, n, ofs))
                        log.ops.append(('fread', path, ofs, n, res, err, st.st_size))
        log.cached = len(getattr(vfs, "_cache", ()))
        return 'done'
    return fn

def tornado_modules():
    t = types.ModuleType('tornado')
    def mod(name, **kw):
        m = types.ModuleType('tornado.' + name)
        m.__dict__.update(kw)
        setattr(t, name, m)
        return m
    class RequestHandler:
        def decode_argument(self, value, name=None):
            return value.decode()
        def set_header(self, k, v): self.headers[k] = v
        def set_status(self, s): self.status = s
        def send_error(self, s): self.status = s
        def write(self, b): self.body.append(b if isinstance(b, bytes) else b.encode())
        def redirect(self, url, permanent=False): self.status, self.url = 301, url
        def get_argument(self, k, d): return self.request.arguments[k][-1]
        def render(self, template, **kw):
            kw['dir_contents'] = list(kw['dir_contents'])
            self.page = kw
    class Return(Exception): pass
    def coroutine(f):
        def g(*a, **kw):
            try:
                return f(*a, **kw)
            except Return:
                return None
        return g
    ms = [t, mod('gen', coroutine=coroutine, Return=Return), mod('httpserver', HTTPServer=None), mod('ioloop', IOLoop=None), mod('netutil', bind_unix_socket=None), mod('web', RequestHandler=RequestHandler)]
    return {m.__name__: m for m in ms}

def web_reader(plan, log):
    rng = subrng(plan['seed'], 'reader')
    from urllib.parse import unquote_to_bytes
    def fn(load):
        G.world.current.modules.update(tornado_modules())
        vfs = load('bup.vfs')
        vfs._cache_max_items = plan['cache']
        cmd = load('bup.cmd.web')
        known = start_paths()
        with load('bup.repo').LocalRepo() as repo:
            while log.n < plan['nops']:
                log.step()
                path = rng.choice(known[-12:] if rng.random() < .5 else known)
                if rng.random() < .08:
                    path += b'/zz'
                if rng.random() < .5 and not path.endswith(b'/'):
                    path += b'/'
                h = cmd.BupRequestHandler()
                h.initialize(repo, human=False)
                h.headers, h.status, h.body, h.page, h.url = {}, 200, [], None, None
                args = {k: ['1'] for k in ('hidden', 'meta', 'hash') if rng.random() < .6}
                m = rng.choice(('GET', 'GET', 'GET', 'HEAD'))
                h.request = types.SimpleNamespace(arguments=args, method=m)
                err = None
                try:
                    (h.head if m == 'HEAD' else h.get)(path)
                except HarnessError:
                    raise
                except OSError as ex:
                    err = ex.errno if isinstance(ex, vfs.IOError) else f'{type(ex).__name__}: {ex}'
                except Exception as ex:
                    err = f'{type(ex).__name__}: {ex}'
                log.ops.append(('http', path, m, args, h.status, dict(h.headers), b''.join(h.body), h.page, h.url, err))
                if h.page:
                    l = [unquote_to_bytes(x[1].partition('?')[0]) for x in h.page['dir_contents']]
                    l = [n for n in l if n.rstrip(b'/') not in (b'..', b'.')]
                    known += [path.rstrip(b'/') + b'/' + n.rstrip(b'/') for n in rng.sample(l, min(len(l), 4))]
        log.cached = len(getattr(vfs, "_cache", ()))
        return 'done'
    return fn

# ---------------------------------------------------------------- the model

DIR, FILE, EXEC, LINK = 0o40755, 0o100644, 0o100755, 0o120755

class VfsError(Exception):
    def __init__(self, errno):
        self.errno = errno

class Node:
    """kind: root tags rev commit tree file link"""
    def __init__(self, kind, oid=None, coid=None, path=None, mode=None, target=None):
        self.kind, self.oid, self.coid, self.path, self.mode, self.target = kind, oid, coid, path, mode, target
    def isdir(self):
        return self.kind not in ('file', 'link')
    def key(self):
        return (self.kind, self.oid, self.coid, self.target)

class Model:
    def __init__(self, r, snaps):
        self.r = r
        self.snaps = snaps # commit -> snapshot of the source
        self.revs = {}
        self.cache = {}

    def rev(self, tip):
        if tip not in self.revs:
            h = self.r.history(tip)
            d = {n: Node('commit', self.r.commit(c)['tree'], c, b'') for n, c in zip(lab.save_names(self.r, h), h)}
            first = next(iter(d))
            d[b'latest'] = Node('link', target=first)
            self.revs[tip] = d
        return self.revs[tip]

    def children(self, node, refs):
        """refs: {name: oid} that hold"""
        if node.kind == 'root':
            d = {n[11:]: Node('rev', o) for n, o in refs.items() if n.startswith(b'refs/heads/')}
            d[b'.tag'] = Node('tags')
            return d
        if node.kind == 'tags':
            return {n[10:]: Node('commit', self.r.commit(o)['tree'], o, b'') for n, o in refs.items() if n.startswith(b'refs/tags/')}
        if node.kind == 'rev':
            return self.rev(node.oid)
        if node.kind in ('commit', 'tree'):
            k = (node.coid, node.path, node.oid)
            if k not in self.cache:
                d = {}
                for n, (kind, m, o) in self.r.dir(node.oid).items():
                    p = node.path + b'/' + n if node.path else n
                    if kind == 'dir':
                        d[n] = Node('tree', o, node.coid, p, DIR)
                    elif kind == 'link':
                        d[n] = Node('link', o, node.coid, p, LINK, self.r.get(o))
                    else:
                        d[n] = Node('file', o, node.coid, p, FILE if stat.S_ISDIR(m) or not m & 0o100 else EXEC)
                        d[n].gitmode = m
                self.cache[k] = d
            return self.cache[k]
        return {}

    def meta(self, node):
        """What the source looked like, if known."""
        s = self.snaps.get(node.coid)
        if s is None or node.path is None:
            return None
        if node.path == b'src':
            return s.get(b'')
        if not node.path.startswith(b'src/'):
            return None
        return s.get(node.path[4:])

    def data(self, node):
        return self.r.chunks(node.oid, node.gitmode)

    def resolve(self, path, parent, follow, refs):
        """[(name, node)], whose last node may be None."""
        import errno
        def split(p):
            return p.startswith(b'/'), [x for x in p.split(b'/') if x not in (b'', b'.')]
        ab, todo = split(path)
        must = path.endswith((b'/', b'/.')) or not todo
        follow = follow or must
        root = [(b'', Node('root'))]
        past = root if ab or not parent else list(parent)
        hops = 0
        todo.reverse()
        while todo:
            seg = todo.pop()
            cur = past[-1][1]
            if not cur.isdir():
                raise VfsError(errno.ENOTDIR)
            if seg == b'..':
                if len(past) > 1:
                    past = past[:-1]
                continue
            n = self.children(cur, refs).get(seg)
            if n is None:
                return past + [(seg, None)]
            if n.kind == 'link' and (todo or follow):
                hops += 1
                if hops > 101:
                    raise VfsError(errno.ELOOP)
                ab, t = split(n.target)
                if ab:
                    past = root
                    if not t: # (what follows "/" is looked up there)
                        continue
                todo += reversed(t)
                continue
            past = past + [(seg, n)]
        if must and not past[-1][1].isdir():
            raise VfsError(errno.ENOTDIR)
        return past

# ---------------------------------------------------------------- judgement

class Judge:
    def __init__(self, plan, rec, model, allowed, fired):
        self.plan, self.rec, self.m, self.allowed, self.fired = plan, rec, model, allowed, fired
        self.nodes = {} # lookup -> [(name, node)]
        self.errors = 0
        self.sizes = {}

    def bad(self, cls, msg):
        raise Violation(cls, msg)

    def raised(self, op, err, want=None):
        """err is what was raised, want what had to be."""
        if err == want:
            return err is not None
        if isinstance(err, str) and self.fired:
            self.errors += 1
            self.rec.probe('error')
            if self.errors > 4:
                self.bad('unrecovered', f'still fails after {self.errors} operations after one fault: {err}')
            return True
        self.bad('raised' if want is None else 'not-raised', f'{op}: {err!r} instead of {want!r}')

    def refs_choices(self, op):
        """Combinations of ref values to try."""
        tips = self.allowed
        for main in tips[b'refs/heads/main']:
            for sp in tips[b'refs/heads/sp']:
                for tg in tips[b'refs/tags/tg']:
                    yield {b'refs/heads/main': main, b'refs/heads/sp': sp, b'refs/tags/tg': tg}

    def same(self, item, node, wm, where):
        """A VFS item is what the model has."""
        t = type(item).__name__
        want = {'root': ('Root',), 'tags': ('Tags',), 'rev': ('RevList',), 'commit': ('Commit',), 'tree': ('Item',), 'file': ('Item', 'Chunky'), 'link': ('Item', 'FakeLink')}[node.kind]
        if t not in want:
            return f'{where} is a {t} instead of a {node.kind}'
        if node.kind in ('commit', 'tree', 'file', 'rev') and item.oid != node.oid:
            return f'{where} has id {item.oid.hex()[:10]} instead of {node.oid.hex()[:10]}'
        if node.kind == 'commit' and item.coid != node.coid:
            return f'{where} is save {item.coid.hex()[:10]} instead of {node.coid.hex()[:10]}'
        if node.kind == 'link' and t == 'FakeLink' and item.target != node.target:
            return f'{where} leads to {item.target!r} instead of {node.target!r}'
        return self.meta(item, node, where)

    def meta(self, item, node, where):
        m = item.meta
        s = self.m.meta(node)
        if isinstance(m, int) or m.uid is m.mtime is None: # (made up from what git knows)
            mode = getattr(m, 'mode', m)
            if node.isdir():
                if mode != DIR:
                    return f'{where}: mode {mode:o}'
            elif node.kind == 'link':
                if mode != LINK:
                    return f'{where}: mode {mode:o}'
            elif mode != node.mode:
                return f'{where}: mode {mode:o} instead of {node.mode:o}'
            return None
        if s is None:
            return None
        bits = (('mode', m.mode, s['kind'] | s['perm']) if 'perm' in s else ('kind', stat.S_IFMT(m.mode), s['kind']),
                ('uid', m.uid, s['uid']), ('gid', m.gid, s['gid']), ('mtime', m.mtime, s['mtime']))
        for k, a, b in bits:
            if a != b:
                return f'{where}: {k} {a} instead of {b}'
        if m.size is not None and 'data' in s and m.size != len(s['data']):
            return f'{where}: size {m.size} instead of {len(s["data"])}'
        if 'target' in s and m.symlink_target is not None and m.symlink_target != s['target']:
            return f'{where}: target {m.symlink_target!r} instead of {s["target"]!r}'

    def op_resolve(self, k, path, pi, wm, follow, res, err):
        self.rec.probe('relative' if pi is not None else 'resolve')
        parent = self.nodes.get(pi) if pi is not None else None
        if pi is not None and parent is None:
            return
        if b'..' in path:
            self.rec.probe('dotdot')
        why, errs = None, set()
        first = True
        for refs in self.refs_choices(path):
            if parent:
                # what the parent passed through is settled
                for (a, x), (n, y) in zip(parent, parent[1:]):
                    if y.kind == 'rev':
                        pass
            try:
                want = self.m.resolve(path, parent, follow in (True, 'try'), refs)
                if follow == 'try' and want[-1][1] is None:
                    w2 = self.m.resolve(path, parent, False, refs)
                    want = w2 if w2[-1][1] is not None and w2[-1][1].kind == 'link' else w2
            except VfsError as ex:
                errs.add(ex.errno)
                if err == ex.errno:
                    self.rec.probe('loop' if err == 40 else 'notdir')
                    return ('err', err)
                first = False
                continue
            if err is not None:
                continue
            x = self.compare(res, want, wm)
            if x is None:
                self.nodes[k] = want
                last = want[-1][1]
                self.rec.probe('missing' if last is None else last.kind if last.kind == 'link' else 'resolve')
                if not first:
                    self.rec.probe('stale')
                if parent and parent[-1][0] == b'tg':
                    t = self.sizes.setdefault((path, wm, follow), set())
                    t.add(parent[-1][1].coid)
                    if len(t) > 1:
                        self.rec.probe('moved-parent')
                if parent and parent[-1][1].kind in ('rev', 'commit', 'tree') and any(y.kind == 'rev' and y.oid != next(iter(self.allowed[b'refs/heads/main'])) for _, y in parent):
                    self.rec.probe('old-parent')
                return
            why = why or x
            first = False
        if err is not None:
            if self.raised(f'resolve {path!r}', err, None):
                return
        self.bad('resolve', f'resolving {path!r}' + (f' in {b"/".join(n for n, _ in parent)!r}' if parent else '') + f' (follow={follow}): {why or "must fail with " + str(errs)}; got {show(res)}')

    def compare(self, res, want, wm):
        if len(res) != len(want) or any(a[0] != b[0] for a, b in zip(res, want)):
            return f'leads to {b"/".join(n for n, _ in res)!r} instead of {b"/".join(n for n, _ in want)!r}'
        for (n, item), (_, node) in zip(res, want):
            if (item is None) != (node is None):
                return f'{n!r} ' + ('is missing' if item is None else 'exists')
            if item is not None:
                x = self.same(item, node, wm, repr(n))
                if x:
                    return x

    def node(self, i):
        c = self.nodes.get(i)
        return None if c is None else c[-1][1]

    def op_contents(self, k, i, names, wm, res, err):
        node = self.node(i)
        if node is None or self.raised('contents', err):
            return
        self.rec.probe('names' if names else 'contents')
        why = None
        for refs in self.refs_choices(None):
            want = dict(self.m.children(node, refs))
            if names:
                want = {n: x for n, x in want.items() if n in names}
            if not names or b'.' in names:
                want[b'.'] = node
            x = None
            if len(res) != len(dict(res)):
                x = 'repeated names'
            elif set(dict(res)) != set(want):
                x = f'lists {sorted(dict(res))[:9]} instead of {sorted(want)[:9]} (differing: {sorted(set(dict(res)) ^ set(want))[:5]})'
            else:
                for n, item in res:
                    if n == b'.' and node.kind == 'commit': # (the tree of the save)
                        if item.oid != node.oid:
                            x = x or '. is something else'
                        continue
                    x = x or self.same(item, want[n], wm, repr(n))
            if x is None:
                return
            why = why or x
            if node.kind not in ('root', 'tags'):
                break
        self.bad('contents', f'the contents of {self.name(i)} (names={names}, want_meta={wm}): {why}')

    def name(self, i):
        return repr(b'/'.join(n for n, _ in self.nodes[i]))

    def op_seek(self, k, i, pos, tell, err):
        node = self.node(i)
        if node is None:
            return
        self.rec.probe('seek')
        size = len(self.m.data(node))
        want = 22 if pos < 0 or pos > size else None
        if self.raised(f'seek to {pos} of {size}', err, want):
            return
        if tell != pos:
            self.bad('seek', f'at {tell} after seeking to {pos}')

    def op_read(self, k, i, at, n, res, tell, err):
        node = self.node(i)
        if node is None or self.raised('read', err):
            return
        self.rec.probe('read')
        data = self.m.data(node)
        if stat.S_ISDIR(node.gitmode):
            self.rec.probe('chunky')
        want = data[at:] if n == -1 else data[at:at + n]
        if res != want:
            self.bad('read', f'{n} bytes at {at} of {self.name(i)} ({len(data)} bytes): ' + (f'{len(res)} bytes instead of {len(want)}' if len(res) != len(want) else 'wrong data'))
        if tell != at + len(want):
            self.bad('read', f'at {tell} after reading {len(want)} bytes at {at}')

    def op_open(self, k, i, err):
        self.raised('open', err)

    def op_size(self, k, i, res, err):
        node = self.node(i)
        if node is None or self.raised('size', err):
            return
        self.rec.probe('size')
        s = self.m.meta(node)
        want = None if node.isdir() else len(node.target) if node.kind == 'link' else len(self.m.data(node))
        if s is not None and s['kind'] not in (stat.S_IFREG, stat.S_IFLNK, stat.S_IFDIR):
            want = 0
        if res != want and not (node.isdir() and res is not None and s is not None):
            self.bad('size', f'{self.name(i)} has size {res} instead of {want}')

    def op_readlink(self, k, i, res, err):
        node = self.node(i)
        if node is None or self.raised('readlink', err):
            return
        self.rec.probe('readlink')
        if res != node.target:
            self.bad('readlink', f'{self.name(i)} leads to {res!r} instead of {node.target!r}')

    def op_meta(self, k, i, inc, pub, res, err):
        node = self.node(i)
        if node is None or self.raised('meta', err):
            return
        if isinstance(res.meta, int):
            self.bad('meta', f'{self.name(i)} still has no metadata')
        x = self.meta(res, node, self.name(i))
        if x:
            self.bad('meta', x)
        if inc and not node.isdir():
            self.op_size(k, i, res.meta.size, None)
        if inc and pub and node.isdir() and res.meta.size is None:
            self.bad('meta', f'{self.name(i)} has no size')

    # fuse and web: paths are looked up from the top, each at some moment

    def some(self, path, f, follow=False):
        """Some admissible set of refs explains it; f(node) -> problem or None"""
        why = None
        for refs in self.refs_choices(path):
            try:
                node = self.m.resolve(path, None, follow, refs)
                x = f(node[-1][1], refs)
            except VfsError as ex:
                x = f(ex, refs)
            if x is None:
                return
            why = why or x
        return why

    def op_getattr(self, k, path, st, err):
        self.rec.probe('resolve')
        def f(node, refs):
            if isinstance(node, VfsError):
                return None if err == node.errno else f'{err} instead of {node.errno}'
            if err is not None:
                return f'fails with {err}'
            if node is None:
                self.rec.probe('missing')
                return None if st == -2 else f'exists: {st}'
            if st == -2:
                return 'does not exist'
            s = self.m.meta(node) if self.plan['meta'] else None
            if s is None:
                want = DIR if node.isdir() else LINK if node.kind == 'link' else node.mode
                if node.coid and self.plan['meta'] and node.path == b'' or node.kind == 'rev' or self.plan['meta'] and node.coid in self.m.snaps:
                    want = None
                if want and st['st_mode'] != want:
                    return f'mode {st["st_mode"]:o} instead of {want:o}'
            else:
                if 'perm' in s and st['st_mode'] != s['kind'] | s['perm'] or stat.S_IFMT(st['st_mode']) != s['kind']:
                    return f'mode {st["st_mode"]:o}'
                for a, b in (('st_uid', s['uid']), ('st_gid', s['gid']), ('st_mtime', max(0, s['mtime'] // SEC))):
                    if st[a] != b:
                        return f'{a} {st[a]} instead of {b}'
            if node.kind == 'file' and (s is None or s['kind'] == stat.S_IFREG) and st['st_size'] != len(self.m.data(node)):
                return f'size {st["st_size"]} instead of {len(self.m.data(node))}'
            if node.kind == 'link' and st['st_size'] != len(node.target):
                return f'size {st["st_size"]} instead of {len(node.target)}'
        self.report('getattr', path, f, err)

    def report(self, what, path, f, err, follow=False):
        x = self.some(path, f, follow)
        if x is not None:
            if isinstance(err, str) and self.fired:
                self.raised(what, err)
                return
            self.bad(what, f'{what} {path!r}: {x}')

    def op_readdir(self, k, path, res, err):
        self.rec.probe('contents')
        from os import fsdecode
        def f(node, refs):
            if err is not None:
                return f'fails with {err}'
            if node is None or isinstance(node, VfsError):
                return 'does not exist'
            want = sorted(fsdecode(n) for n in [b'.', b'..', *self.m.children(node, refs)])
            return None if sorted(res) == want else f'lists {sorted(res)[:9]} instead of {want[:9]}'
        self.report('readdir', path, f, err)

    def op_freadlink(self, k, path, res, err):
        self.rec.probe('readlink')
        def f(node, refs):
            if err is not None:
                return f'fails with {err}'
            if not isinstance(node, Node) or node.kind != 'link':
                return 'is not a link'
            return None if res == node.target else f'leads to {res!r} instead of {node.target!r}'
        self.report('readlink', path, f, err)

    def op_fread(self, k, path, ofs, n, res, err, size):
        self.rec.probe('read')
        def f(node, refs):
            if not isinstance(node, Node) or node.kind != 'file':
                return 'is not a file'
            s = self.m.meta(node)
            if err is not None and s is not None and s['kind'] != stat.S_IFREG: # (looks like a file without --meta, but can't be read)
                return None
            data = self.m.data(node)
            if stat.S_ISDIR(node.gitmode):
                self.rec.probe('chunky')
            if err is not None:
                return None if ofs > len(data) and err == 22 else f'fails with {err}'
            return None if res == data[ofs:ofs + n] else f'{len(res)} bytes at {ofs} instead of {len(data[ofs:ofs + n])} of {len(data)}, or others'
        self.report('read', path, f, err)

    def op_http(self, k, path, m, args, status, headers, body, page, url, err):
        from urllib.parse import unquote_to_bytes, quote
        def f(node, refs):
            if isinstance(node, VfsError):
                return None if err == node.errno else f'{err} instead of {node.errno}'
            if node is not None and node.kind == 'file' and (self.m.meta(node) or {'kind': stat.S_IFREG})['kind'] != stat.S_IFREG: # (fails loudly)
                return None
            if err is not None:
                return f'fails with {err}'
            if status == 500:
                return f'status 500: {body[-300:]!r}'
            if node is None:
                self.rec.probe('missing')
                return None if status == 404 else f'status {status} instead of 404'
            if not node.isdir():
                self.rec.probe('read')
                data = self.m.data(node) if node.kind == 'file' else None
                s = self.m.meta(node)
                if s is not None and s['kind'] != stat.S_IFREG:
                    return None
                if status != 200:
                    return f'status {status}'
                if m == 'GET' and body != data:
                    return f'{len(body)} bytes instead of {len(data)}, or others'
                if (data or m == 'HEAD') and headers.get('Content-Length') != str(len(data)):
                    return f'Content-Length {headers.get("Content-Length")} instead of {len(data)}'
                if s is not None and (data or m == 'HEAD') and headers.get('Etag') != node.oid.hex().encode():
                    return 'Etag'
                return None
            self.rec.probe('contents')
            if not path.endswith(b'/'):
                return None if status == 301 and unquote_to_bytes(url.partition('?')[0]) == path + b'/' else f'status {status}, {url!r}'
            if page is None:
                return f'status {status}'
            kids = self.m.children(node, refs)
            want = {n for n in kids if 'hidden' in args or not n.startswith(b'.')}
            got = [unquote_to_bytes(x[1].partition('?')[0]) for x in page['dir_contents']]
            names = sorted(n.rstrip(b'/') for n in got if n.rstrip(b'/') != b'..')
            if names != sorted(want):
                return f'lists {names[:9]} instead of {sorted(want)[:9]}'
            if bool(page['files_hidden']) != any(n.startswith(b'.') for n in kids):
                return 'hidden files'
            for n, x in zip(got, page['dir_contents']):
                c = kids.get(n.rstrip(b'/'))
                if c is None:
                    continue
                if n.endswith(b'/') != c.isdir():
                    return f'{n!r}: {c.kind}'
                if 'meta' in args and c.kind == 'file' and (self.m.meta(c) or {'kind': stat.S_IFREG})['kind'] == stat.S_IFREG and x[2] != len(self.m.data(c)):
                    return f'{n!r}: size {x[2]} instead of {len(self.m.data(c))}'
                if 'hash' in args and c.oid is not None and c.kind != 'link' and x[4] != c.oid.hex().encode():
                    return f'{n!r}: id {x[4]}'
            return None
        if status == 500 and self.fired:
            err = err or body.decode('latin-1')
        self.report('http', path, f, err, follow=True)

def show(res):
    if res is None:
        return None
    return '/'.join(f'{n!r}:{type(i).__name__}' + (':' + i.oid.hex()[:8] if getattr(i, 'oid', None) else '') for n, i in res)

# ---------------------------------------------------------------- a run

def execute(plan, rec):
    kind = plan['kind']
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
    w = l.w
    at = l.srv if kind == 'remote' else l.host
    snaps = {}
    tips = {}
    def after(op):
        if op[0] == 'bup' and op[1][0] in ('save', 'split', 'tag'):
            r = Repo(at.fs)
            for n, o in r.refs().items():
                t = tips.setdefault(n, [])
                if o not in t:
                    t.append(o)
                    if op[1][0] == 'save' and n == b'refs/heads/main':
                        snaps[o] = snapshot(l.host.fs, SRC)
    for op in plan['pre']:
        run_pre(l, [op])
        after(op)
    if any(k not in tips for k in (b'refs/heads/main', b'refs/heads/sp', b'refs/tags/tg')):
        return
    allowed = {n: [v[-1]] for n, v in tips.items()}
    rec.probe(kind)
    log = Log()
    mk = {'vfs': vfs_reader, 'remote': vfs_reader, 'fuse': fuse_reader, 'web': web_reader}[kind]
    f = None
    p = lab.start(w, l.host, [b'harness'])
    p.aux['fn'] = mk(plan, log)
    if plan['fault']:
        class Own(Fault): # (only the reader's git)
            def matches(self, w, q, call, path):
                if not log.n or not super().matches(w, q, call, path):
                    return False
                while q is not None and q is not p:
                    q = q.parent
                return q is p
        f = Own(dict(plan['fault']))
        w.faults.append(f)
    def guard():
        if w.harness_errors:
            raise HarnessError(str(w.harness_errors[0]))
    if plan['gate'] and plan['acts']:
        log.gate = plan['acts'][0][0]
    for n, (k, ops) in enumerate(plan['acts']):
        w.run_until(lambda: log.n >= k or p.dead)
        for op in ops:
            if op[0] == 'bup':
                q = l.start(op)
                w.run_until(lambda: q.dead)
                guard()
                if q.status != 0:
                    r = lab.result(q)
                    raise Violation('command-failed', f'{op[1]} exited {r.rc} beside a reader: {r.err[-500:].decode("utf-8", "replace")}')
                after(op)
                rec.probe('new-save')
            else:
                l.do(op)
        if log.gate is not None:
            log.gate = plan['acts'][n + 1][0] if n + 1 < len(plan['acts']) else None
    w.run_until(lambda: p.dead)
    lab.settle(w)
    guard()
    res = lab.result(p)
    fired = bool(f and f.fired)
    if fired:
        rec.probe('fault')
        rec.fault('git-' + f.spec['action'])
    r = Repo(at.fs)
    if any(n.endswith(b'.bupd') for o in r.objs if r.type(o) == b'tree' for _, n, _ in r.tree(o)):
        rec.probe('split-tree')
    if log.cached >= plan['cache']:
        rec.probe('evict')
    for n, v in tips.items():
        i = v.index(allowed[n][0]) if n in allowed else 0
        allowed[n] = v[i:][::-1]
    j = Judge(plan, rec, Model(r, snaps), allowed, fired)
    rec.trials += len(log.ops)
    for k, op in enumerate(log.ops):
        name = op[0]
        if name == 'readlink' and kind == 'fuse':
            name = 'freadlink'
        try:
            getattr(j, 'op_' + name)(k, *op[1:])
        except Violation as ex:
            ex.msg = f'{kind} reader, operation {k}: {ex.msg}' + (f' [{res.err[-1500:].decode("utf-8", "replace")}]' if 'raised' in ex.cls else '')
            raise
        last = j.nodes.get(k)
        rec.state(kind, name, last[-1][1].kind if last and last[-1][1] else None, log.cached >= plan['cache'], len(allowed[b'refs/heads/main']), fired,
                  [c for c in ('zz', '..', 'latest', 'l0') if c.encode() in op[1]] if isinstance(op[1], bytes) else None)
    if log.ops and any(op[0] == 'getattr' or op[0] == 'resolve' for op in log.ops) and b'/.tag/tg' in [op[1] for op in log.ops]:
        rec.probe('tag')
    if p.aux.get('value') != 'done':
        raise Violation('died', f'the reader exited {res.rc} after {log.n} operations: {res.err[-700:].decode("utf-8", "replace")}')
    rec.world(w)
    l.close()
