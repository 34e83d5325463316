"""Files that change or fail while they are indexed or saved cost only themselves."""

import stat

from .common import *
from . import p05

ID = 'P18'
RULE = ('A plan is a source tree, perhaps saved before, then rounds in which index and save run while, between any two of their system calls, files and directories change (written in place, '
        'replaced, truncated, removed, renamed, turned into another kind of file) or while system calls on them fail. What is as it was throughout must be in the save with its content '
        'and metadata; files that changed must have content that was read; when something that existed throughout is missing, index or save must have exited non-zero; the save must be complete, '
        'restorable and consistent. A further save, without indexing again, must have what failed before. At the end an undisturbed index and save must give a save equal to the file system. '
        'Distinct non-trivial: different (phase, call before which something changed or failed, kind of change, exit statuses) combinations.')
ASSUMPTIONS = ['no clock steps, so that changes can be recognized (P05)', 'when the top directory itself cannot be read, only the reporting and the following save are judged',
               'indexing is not refused permission to read the inode flags of a file (that is reported and otherwise tolerated) which it can read later without any other change']
SHRINK = ['rounds', 'rounds.*.edits', 'rounds.*.acts', 'rounds.*.between', 'rounds.*.faults', 'rounds.*.acts.*.4']
PROBES = ['index-changed', 'save-changed', 'index-fault', 'save-fault', 'kind-changed', 'dir-moved', 'read-changed', 'split-trees', 'remote', 'resaved-clean', 'reported', 'unreported', 'sizes',
          'restored', 'not-reindexed', 'fifo', 'top', 'save-again']
LEVEL = 'seeded search over interleavings with changes of the sources and failing system calls'

CALLS = {
    'index': (('lstat', ('EIO', 'EACCES', 'ENOENT', 'ESTALE')), ('stat', ('EIO', 'EACCES', 'ENOENT', 'ESTALE')), ('open', ('EIO', 'ENOENT', 'EPERM', 'ESTALE')), ('listdir', ('EIO', 'ENOENT', 'ESTALE')),
              ('readlink', ('EIO', 'ENOENT')), ('xattr', ('EIO', 'EACCES'))),
    'save': (('lstat', ('EIO', 'EACCES', 'ENOENT', 'ESTALE')), ('stat', ('EIO', 'EACCES', 'ENOENT', 'ESTALE')), ('open', ('EIO', 'EACCES', 'ENOENT', 'EPERM', 'ESTALE', 'EMFILE')), ('read', ('EIO', 'EIO', 'ESTALE')),
             ('readlink', ('EIO', 'ENOENT')), ('xattr', ('EIO', 'EACCES'))),
}

def changes(rng, g, t, isdir):
    """Edits that affect path t."""
    sp = lambda: gen.rand_spec(rng, .2, g.maxsize)
    tmp = 'tmp%d' % rng.randrange(10)
    if t == '':
        return rng.choice(([['write', 'top%d' % rng.randrange(9), sp()]], [['chmod', '', rng.choice((0o700, 0o755))]], [['touch', '']]))
    up = t.rsplit('/', 1)[0] + '/' if '/' in t else ''
    x = rng.random()
    if x < .12:
        return [['rm', t]]
    if x < .22:
        return [['mv', t, rng.choice((up + tmp, tmp, up + 'zz'))]]
    if x < .4: # becomes something else
        new = rng.choice((['write', t, sp()], ['mkdir', t], ['sym', t, rng.choice(('a', '/src', '.', 'nowhere', '../x'))], ['node', t, rng.choice(('fifo', 'sock', 'fifo'))], ['node', t, 'chr', 5, 7]))
        e = [['rm', t], new]
        if new[0] == 'mkdir' and rng.random() < .6:
            e.append(['write', t + '/inner', sp()])
        return e
    if isdir:
        if x < .5:
            return [['mv', t, up + tmp], ['sym', t, tmp]]
        if x < .6:
            return [['mv', t, up + tmp], ['mkdir', t], ['write', t + '/a', sp()]]
        if x < .8:
            return [['write', t + '/' + rng.choice(('a', 'b', 'new', 'zz')), sp()]]
        if x < .9:
            return [['chmod', t, rng.choice((0o700, 0o750, 0o2755))]]
        return [['xattr', t, 'user.a', rng.choice((None, 'v%d' % rng.randrange(9)))]]
    if x < .5:
        return [['write', up + tmp, sp()], ['mv', up + tmp, t]]
    if x < .55:
        return [['rm', t], ['write', t, sp()]]
    if x < .65:
        return [['trunc', t, rng.choice((0, 1, 100, 9000))]]
    if x < .75:
        return [['append', t, sp()]]
    if x < .87:
        return [['poke', t, rng.randrange(1 << 20), ['rand', rng.randrange(999), rng.choice((1, 10, 5000))]]]
    if x < .9:
        return [['ln', t, up + tmp]]
    if x < .93:
        return [['chmod', t, rng.choice((0o600, 0o755))]]
    if x < .96:
        return [['xattr', t, 'user.a', rng.choice((None, 'v%d' % rng.randrange(9)))]]
    return [['utime', t, rng.choice((0, 10**18))]]

def plan(rng, tier, i):
    cfg = base_cfg(rng, srv=i % 6 == 5)
    cfg['gran'] = rng.choice((1, 4_000_000, SEC))
    if cfg['srv']:
        cfg['srv_config'] = cfg['config']
    g = treegen(rng, rich=rng.random() < .6, links=rng.random() < .5, big=.12, maxsize=40000)
    rounds = []
    for n in range(rng.choice((1, 1, 2, 3))):
        r = {'edits': g.edits(rng.randint(4, 14) if n == 0 else rng.choice((0, 1, 3)))}
        if n == 0 and rng.random() < (.15 if 'trees' in cfg['config'] else 0):
            e = ['many', '', rng.choice(('m', '*', '*')), rng.choice((60, 200, 400)), rng.randrange(1000)]
            if gen.apply_edit(g.fs, g.base, e):
                r['edits'].append(e)
        if rng.random() < .4:
            e = ['node', g.newname(), rng.choice(('fifo', 'sock'))] if rng.random() < .7 else ['sym', g.newname(), rng.choice(('a', '../x', '/src'))]
            try:
                if gen.apply_edit(g.fs, g.base, e):
                    r['edits'].append(e)
            except OSError:
                pass
        r['first'] = rng.random() < .55 if n == 0 else rng.random() < .2
        r['more'] = g.edits(rng.choice((0, 0, 1, 2, 4)))
        r['pause'] = rng.choice((0, 0, SEC // 2, 3 * SEC))
        al = [dec(p) for p in g.all()]
        ds = {dec(p) for p in g.dirs()}
        acts = []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            t = rng.choice(al) if al and rng.random() < .9 else ''
            ups = [u for u in ds if u and t.startswith(u + '/')]
            if ups and rng.random() < .3:
                t2 = rng.choice(ups) # change its parent when it is being read
            else:
                t2 = t if rng.random() < .85 or not al else rng.choice(al)
            acts.append([rng.choice(('index', 'save', 'save')), t, rng.choice((None, None, 'open', 'open', 'read', 'lstat', 'stat')), rng.choice((0, 0, 0, 1, 1, 2, 3, 5)), changes(rng, g, t2, t2 in ds)])
        r['acts'] = acts
        r['between'] = []
        if rng.random() < .25 and al:
            t = rng.choice(al)
            r['between'] = changes(rng, g, t, t in ds)
        odd = [dec(p[len(g.base) + 1:]) for p, x in g.fs.tree(g.base) if x.data is None and x.entries is None]
        if rng.random() < .3 and odd:
            t = rng.choice(odd)
            r['between'] += [['rm', t], rng.choice((['write', t, gen.rand_spec(rng, .2, g.maxsize)], ['write', t, gen.rand_spec(rng, .2, g.maxsize)], ['node', t, 'fifo'], ['node', t, 'sock'], ['sym', t, 'a'], ['mkdir', t]))]
        faults = []
        for _ in range(rng.choice((0, 0, 1, 1, 2)) if acts else rng.choice((1, 2))):
            ph = rng.choice(('index', 'save', 'save'))
            c, errs = rng.choice(CALLS[ph])
            f = {'calls': [c], 'under': '/src' + ('/' + rng.choice(al) if al and rng.random() < .8 else '/' if rng.random() < .9 else ''), 'nth': rng.choice((0, 0, 0, 1, 2, 3)), 'action': 'err', 'errno': rng.choice(errs)}
            if rng.random() < .3:
                f['persist'] = True
            faults.append([ph, f])
        r['faults'] = faults
        r['again'] = rng.random() < .4
        r['reindex'] = rng.random() < .9
        rounds.append(r)
    return {'cfg': cfg, 'rounds': rounds, 'gap': rng.choice((0, 0, SEC // 3, 5 * SEC))}

def sample(p):
    return p['rounds'][0]

class Obs:
    """What is in the file system and what is read from it while commands run."""
    def __init__(self, l):
        self.l = l
        self.snaps = []
        self.reads = {} # inode -> [ [desc, bytes] ]
        self.snap()
    def snap(self):
        fs = self.l.host.fs
        self.snaps.append({p: (i, gen_describe(i)) for p, i in fs.tree(SRC)})
    def read(self, p, d, b):
        if d.path and d.path.startswith(SRC + b'/') and d.inode.data is not None:
            l = self.reads.setdefault(d.path, [])
            if not l or l[-1][0] is not d:
                l.append([d, b''])
            l[-1][1] += b
        return b

def gen_describe(i):
    return oracle.describe(i)

def anc(p):
    while p != SRC:
        p = p.rsplit(b'/', 1)[0]
        yield p

def execute(plan, rec):
    cfg = plan['cfg']
    l = Lab(dict(cfg, trace=plan.get('trace')))
    host = l.host
    rem = ['-r', 'srv:/r'] if cfg.get('srv') else []
    dst = l.srv if rem else l.host
    if rem:
        rec.probe('remote')
    if 'trees = true' in cfg['config']:
        rec.probe('split-trees')
    for n, rd in enumerate(plan['rounds']):
        what = f'round {n}'
        l.do(['fs', rd['edits']])
        if rd['first']:
            p05.step(l, ['index', '/src'])
            p05.step(l, ['save', *rem, '-n', 'main', '/src'])
        l.do(['fs', rd['more']])
        l.sleep(rd['pause'])
        if not l.host.fs.lookup(REPO + b'/bupindex') and not rd['reindex']:
            continue
        disturbed(l, rec, rd, rem, dst, what)
    # undisturbed
    l.sleep(plan['gap'])
    p05.step(l, ['index', '/src'])
    p05.step(l, ['save', *rem, '-n', 'main', '/src'])
    p05.verify(l, dst, rec, {'save': ['/src']}, 'undisturbed')
    rec.probe('resaved-clean')
    rec.world(l.w)
    l.close()

def disturbed(l, rec, rd, rem, dst, what):
    w = l.w
    obs = Obs(l)
    rcs = {}
    hit = set() # paths of failing calls
    ihit = set()
    fired = []
    olds = old_contents(dst)
    head = Repo(dst.fs).refs().get(b'refs/heads/main')
    w.read_hook = obs.read
    cmds = [('index', ['index', '/src'])] if rd['reindex'] else []
    if not cmds:
        rec.probe('not-reindexed')
    for ph, cmd in cmds + [('save', ['save', *rem, '-n', 'main', '/src'])]:
        if ph == 'save':
            if rd['between']:
                l.do(['fs', rd['between']])
                obs.snap()
            obs.reads.clear()
        acts = [[enc('/src/' + t if t else '/src'), call, [k], edits] for p, t, call, k, edits in rd['acts'] if p == ph]
        faults = [Fault(f) for p, f in rd['faults'] if p == ph]
        me = None
        def actor(p, call, path):
            if p.host is not l.host or path is None or not path.startswith(SRC) or p.aux.get('startup'):
                return
            path = path.rstrip(b'/')
            for a in acts:
                if a[0] != path or a[1] not in (None, call) or a[2][0] < 0:
                    continue
                a[2][0] -= 1
                if a[2][0] < 0:
                    done = [e for e in a[3] if apply(l, e)]
                    if done:
                        w.now += w.rng_clock.randrange(3_000_000)
                        w.fault_counts['source-change'] = w.fault_counts.get('source-change', 0) + 1
                        rec.probe(ph + '-changed')
                        if call == 'read':
                            rec.probe('read-changed')
                        if any(e[0] in ('node', 'sym', 'mkdir') for e in done):
                            rec.probe('kind-changed')
                        if any(e[0] == 'node' and e[2] == 'fifo' for e in done):
                            rec.probe('fifo')
                        if done[0][0] == 'mv' and len(done) > 1:
                            rec.probe('dir-moved')
                        fired.append((ph, call, tuple(e[0] for e in done)))
                        obs.snap()
            for f in faults:
                was = f.fired
                try:
                    f.check(w, p, call, path)
                finally:
                    if f.fired != was:
                        hit.add(path)
                        if ph == 'index':
                            ihit.add(path)
                        rec.probe(ph + '-fault')
                        fired.append((ph, call, (f.spec['errno'],)))
        w.env_actor = actor
        r = l.bup(*cmd)
        w.env_actor = None
        if w.harness_errors:
            raise HarnessError(str(w.harness_errors[0]))
        rcs[ph] = r.rc
        r0 = r
        if r.rc not in (0, 2) or r.uncaught or b'Traceback' in r.err:
            if SRC in hit or (ph == 'save' and not l.host.fs.lookup(REPO + b'/bupindex')):
                rec.probe('top')
                w.read_hook = None
                return
            raise Violation('aborted', f'{what}: {cmd[0]} exited {r.rc}: {r.err[-700:].decode("utf-8", "replace")}')
    w.read_hook = None
    obs.snap()
    r = Repo(dst.fs)
    must_complete(r, what)
    rec.state(tuple(sorted(set(fired), key=repr)), rcs['save'], rcs.get('index'))
    c = r.refs().get(b'refs/heads/main')
    if c == head:
        if SRC in hit:
            rec.probe('top')
            return
        raise Violation('not-saved', f'{what}: save exited {rcs["save"]} without a new commit: {r0.err[-700:].decode("utf-8", "replace")}')
    if SRC in hit:
        rec.probe('top')
        if any(rcs.values()):
            return
        hit.discard(SRC) # it made no difference
    ok = not any(rcs.values())
    rec.probe('unreported' if ok else 'reported')
    tree = r.commit(c)['tree']
    top = r.dir(tree).get(b'src')
    if top is None or top[0] != 'dir':
        raise Violation('wrong-save', f'{what}: no src in the save')
    got = {SRC + b'/' + p if p else SRC: v for p, v in r.content(top[2]).items()}
    # what can be said about each path
    first = obs.snaps[0]
    same, exists = {}, set()
    fresh = bool(cmds) # without a new index only what was indexed is saved
    for p, (i, d) in first.items():
        if any(p not in s for s in obs.snaps):
            continue
        if any(s.get(a, (None,))[0] is not first[a][0] for s in obs.snaps for a in anc(p)):
            continue # the directory was moved
        if p in hit or any(a in hit for a in anc(p)):
            continue
        if all(stat.S_IFMT(s[p][0].mode) == stat.S_IFMT(i.mode) and s[p][1]['kind'] == d['kind'] for s in obs.snaps):
            exists.add(p)
        if all(s[p][0] is i and s[p][1] == d for s in obs.snaps):
            same[p] = d
    if fresh:
        for p in sorted(exists):
            if p not in got and (ok or p in same):
                raise Violation('missing', f'{what}: {p!r} is not in the save' + (', but index and save exited 0' if ok else f' though nothing happened to it: {l.last_err if hasattr(l, "last_err") else ""}'))
        if ok:
            for p in sorted(first):
                # whatever could not be read must have been reported
                if p not in got and p in hit and all(p in s for s in obs.snaps) and p in obs.snaps[-1] \
                   and all(s.get(a, (None,))[0] is first[a][0] for s in obs.snaps for a in anc(p)):
                    raise Violation('unreported', f'{what}: {p!r} is missing from the save, but index and save exited 0')
    for p, d in sorted(same.items()):
        if fresh and p in got:
            kind, data = got[p]
            want = {stat.S_IFDIR: ('dir', None), stat.S_IFREG: ('file', d.get('data')), stat.S_IFLNK: ('link', d.get('target'))}.get(d['kind'], ('file', b''))
            if (kind, data) != want:
                raise Violation('wrong-save', f'{what}: {p!r}, which did not change: {p04short(want)} on disk, {p04short((kind, data))} in the save')
    # content of what did change was read, at least
    for p, (kind, data) in sorted(got.items()):
        if kind == 'file' and p not in same and data:
            if any(data == b for d, b in obs.reads.get(p, ())) or data in olds:
                continue
            raise Violation('torn', f'{what}: the content saved for {p!r} ({len(data)} bytes) is not what was read from it ({[len(b) for d, b in obs.reads.get(p, ())]})')
    restored(l, rec, rem, what, got, same if fresh else {})
    if not rd.get('again') or not fresh:
        return
    # whatever failed is saved when it doesn't fail anymore
    l.sleep(SEC)
    x = l.bup('save', *rem, '-n', 'main', '/src')
    if x.uncaught or b'Traceback' in x.err:
        raise Violation('aborted', f'{what}, save again exited {x.rc}: {x.err[-700:].decode("utf-8", "replace")}')
    r = Repo(dst.fs)
    must_complete(r, what + ', save again')
    top = r.dir(r.commit(r.refs()[b'refs/heads/main'])['tree']).get(b'src')
    got = {SRC + b'/' + p if p else SRC: v for p, v in r.content(top[2]).items()}
    rec.probe('save-again')
    for p, (i, d) in sorted(first.items()):
        if p in ihit or any(a in ihit for a in anc(p)) or any(a not in s or s[a][0] is not first[a][0] for s in obs.snaps for a in anc(p)) or any(p not in s or s[p][0] is not i or s[p][1] != d for s in obs.snaps):
            continue
        want = {stat.S_IFDIR: ('dir', None), stat.S_IFREG: ('file', d.get('data')), stat.S_IFLNK: ('link', d.get('target'))}.get(d['kind'], ('file', b''))
        if got.get(p) != want:
            raise Violation('not-saved-again', f'{what}, save again (exit {x.rc}): {p!r}, which did not change: {p04short(want)} on disk, {p04short(got[p]) if p in got else "missing"} in the save')

def p04short(x):
    return f'{x[0]} of {len(x[1]) if x[1] is not None else 0} bytes'

def apply(l, e):
    try:
        return gen.apply_edit(l.host.fs, SRC, e)
    except OSError:
        return False

def old_contents(dst):
    r = Repo(dst.fs)
    res = set()
    o = r.refs().get(b'refs/heads/main')
    if o is not None:
        for c in r.history(o):
            for k, b in r.content(r.commit(c)['tree']).values():
                if b is not None:
                    res.add(b)
    return res

KEYS = ('kind', 'data', 'target', 'rdev', 'perm', 'uid', 'gid', 'mtime', 'xattrs', 'attr')

def restored(l, rec, rem, what, got, same):
    l.host.fs.remove_tree(b'/tmp/out')
    x = l.bup('restore', *rem, '-C', '/tmp/out', '/main/latest/src/.')
    if x.rc:
        raise Violation('restore-failed', f'{what}: {x.err[-600:].decode("utf-8", "replace")}')
    out = snapshot(l.host.fs, b'/tmp/out')
    rec.probe('restored')
    want = {}
    for p, (kind, data) in got.items():
        p = p[len(SRC) + 1:]
        o = out.pop(p, None)
        if o is None:
            raise Violation('restore-differs', f'{what}: {p!r} is in the save but was not restored')
        k = {stat.S_IFDIR: 'dir', stat.S_IFLNK: 'link'}.get(o['kind'], 'file')
        if k != kind or k == 'link' and o['target'] != data or k == 'file' and o.get('data', b'') != data:
            raise Violation('restore-differs', f'{what}: {p!r} is {p04short((kind, data))} in the save, restored as {p04short((k, o.get("data")))}')
        d = same.get(SRC + b'/' + p if p else SRC)
        if d is not None:
            bad = [f'{k}: {d.get(k)!r} / restored {o.get(k)!r}' for k in KEYS if d.get(k) != o.get(k)]
            if bad:
                raise Violation('wrong-metadata', f'{what}: {p!r}, which did not change: ' + '; '.join(bad)[:600])
    if out:
        raise Violation('restore-differs', f'{what}: restored {sorted(out)[:3]}, which the save does not have')
    # recorded sizes
    def fn(load):
        vfs, repo = load('bup.vfs'), load('bup.repo')
        res = []
        def walk(rp, path, item):
            for name, it in vfs.contents(rp, item, want_meta=True):
                if name == b'.':
                    continue
                m = vfs.item_mode(it)
                if stat.S_ISDIR(m):
                    walk(rp, path + b'/' + name, it)
                elif stat.S_ISREG(m):
                    s = vfs.augment_item_meta(rp, it, include_size=True).meta.size
                    res.append((path + b'/' + name, s))
        loc = repo.main_repo_location(b'srv:/r' if rem else None, lambda *a: None)
        with repo.repo_for_location(loc) as rp:
            walk(rp, SRC, vfs.resolve(rp, b'/main/latest/src', follow=True)[-1][1])
        return res
    r, sizes = None, None
    from sim import lab
    r, sizes = lab.call(l.w, l.host, fn)
    if r.rc:
        raise Violation('unreadable', f'{what}: {r.err[-600:].decode("utf-8", "replace")}')
    rec.probe('sizes')
    for p, s in sizes:
        if p in got and len(got[p][1]) != s:
            raise Violation('wrong-size', f'{what}: {p!r} has {len(got[p][1])} bytes in the save, its metadata says {s}')
