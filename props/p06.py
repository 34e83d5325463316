"""Restore reproduces exactly what was saved."""

import os, re, stat

from .common import *
from .p04 import ERRS as BASE_ERRS

ERRS = dict(BASE_ERRS, chmod=('EIO', 'EPERM'), chown=('EPERM', 'EIO'), utime=('EIO', 'EACCES', 'EPERM'), symlink=('ENOSPC', 'EIO'), mknod=('EPERM', 'ENOSPC'),
            link=('EMLINK', 'EIO', 'ENOSPC', 'EPERM'), setxattr=('ENOSPC', 'EPERM', 'EIO'), ioctl=('EACCES', 'EIO'), setacl=('EPERM', 'EIO', 'ENOSPC'),
            chdir=('EIO', 'EACCES'), rmdir=('EIO',))

ID = 'P06'
RULE = ('A plan is a rich source tree (special files, links, ACLs, xattrs, attributes, odd names and time stamps, wide directories, files with holes) saved '
        'several times with edits in between under a sampled split configuration, then a sequence of restores of any of the saves: whole, a subtree, '
        'single files, several paths at once; with and without trailing slash, sparse, remote, numeric ids, user and group mappings, '
        'exclusions, changed account databases, as root or another user, into a new directory or over an earlier restore of the same files, alone or '
        'while lookup indexes are rebuilt or another save runs, or with a failing, short or interrupted system call. What is then in the output '
        'directory must be exactly what a model of the documented options computes from a snapshot of the source when it was saved. '
        'Distinct non-trivial: different (saved tree, requested paths, options) combinations.')
ASSUMPTIONS = ['restores by another user than root are compared without ownership and device nodes',
               'with an injected failure only a zero exit status promises anything']
SHRINK = ['saves', 'saves.*', 'restores']
PROBES = ['gecos', 'whole', 'subtree', 'file', 'multi', 'sparse', 'remote', 'numeric', 'mapped', 'excluded', 'accounts', 'user', 'old-save', 'again',
          'concurrent', 'fault-failed', 'fault-survived', 'hardlinks', 'acl', 'wide', 'latest']

def rx_for(rng, p):
    n = p.split('/')[-1]
    return rng.choice((re.escape(n) + '$', '/' + re.escape(n) + '/$', '/' + re.escape(n) + '/.', '^/' + re.escape(p.split('/')[0]), 'e', '/$'))

def plan(rng, tier, i):
    cfg = base_cfg(rng, srv=i % 5 == 3)
    cfg['gran'] = rng.choice((1, 1, 4_000_000))
    if cfg['srv']:
        cfg['srv_config'] = cfg['config']
    g = treegen(rng, big=.15, maxsize=150000)
    if rng.random() < .2:
        cfg['gecos'] = rng.choice(GECOS)
    saves = [g.edits(rng.randint(10, 40))]
    if rng.random() < .12:
        e = ['many', dec(rng.choice(g.dirs())), rng.choice(('m', 'x.', '\xff', '*', '*')), rng.randint(50, 700), rng.randrange(1000)]
        if gen.apply_edit(g.fs, g.base, e):
            saves[0].append(e)
    for _ in range(rng.randint(0, 2)):
        saves.append(g.edits(rng.randint(1, 8)))
    rs = []
    cand = [dec(x) for x in g.all()]
    for _ in range(rng.randint(2, 6)):
        r = {'save': rng.randrange(len(saves)), 'opts': [], 'acc': rng.choice((0, 0, 0, 1, 2)), 'uid': rng.choice((0, 0, 0, 0, 1000)), 'seed': rng.randrange(1 << 30)}
        x = rng.random()
        if x < .35 or not cand:
            r['paths'] = [rng.choice(('.', '.', '', '/'))]
        elif x < .6:
            r['paths'] = [rng.choice(cand) + rng.choice(('', '', '/', '/.'))]
        else:
            r['paths'] = list({x.rsplit('/', 1)[-1]: x for x in (rng.choice(cand) for _ in range(rng.randint(2, 4)))}.values())
        o = r['opts']
        if rng.random() < .35: o.append(['--sparse'])
        if rng.random() < .25: o.append(['--numeric-ids'])
        if cfg['srv']: o.append(['-r', 'srv:/r'])
        for _ in range(rng.choice((0, 0, 0, 1, 2))):
            o.append(rng.choice((['--map-user', 'alice=bob'], ['--map-user', 'alice='], ['--map-user', 'bob=nobody'], ['--map-group', 'staff=alice'], ['--map-group', 'alice='],
                                 ['--map-uid', '1000=4242'], ['--map-uid', '4242=1001'], ['--map-uid', '1000=0'], ['--map-gid', '50=777'], ['--map-gid', '777=50'], ['--map-uid', '0=1000'])))
        for _ in range(rng.choice((0, 0, 0, 1, 2))):
            if cand:
                o.append(['--exclude-rx', rx_for(rng, rng.choice(cand))])
        x = rng.random()
        if x < .12:
            r['with'] = rng.choice((B('midx', '-f'), B('midx', '-a'), B('bloom', '-f'), B('save', '-n', 'other', '/src')))
        elif x < .4:
            r['fault'] = rng.randint(1, 4)
        r['again'] = rng.random() < .1
        rs.append(r)
    return {'cfg': cfg, 'saves': saves, 'restores': rs}

def sample(p):
    return {'saves': [s[:6] for s in p['saves']], 'restores': p['restores'][:3]}

# (how the person who saves appears in the password file)
GECOS = ('Sam Smith Jr.', 'A <a@b> B', '"Bob"', ' x', '', ',,', '.', "O'Neil", '\xe9t\xe9', 'A\tB', '>', 'x' * 300, None)

ACCOUNTS = (None,
            {'pw': [(b'root', 0, 0, b'root'), (b'bob', 1000, 1000, b'B'), (b'alice', 5001, 5001, b'A')],
             'gr': [(b'root', 0), (b'alice', 5001), (b'bob', 1000), (b'staff', 20)]},
            {'pw': [(b'root', 0, 0, b'root'), (b'zed', 1000, 1000, b'Z')], 'gr': [(b'root', 0), (b'staff', 1000)]})

def names(acc):
    return {u[1]: u[0] for u in acc['pw']}, {g[1]: g[0] for g in acc['gr']}

def ids(acc):
    return {u[0]: u[1] for u in acc['pw']}, {g[0]: g[1] for g in acc['gr']}

def expect(snap, r, acc0, acc1):
    """({relative path: description} in the output directory, keys to compare, must it fail)"""
    fails = False
    mu, mg, mui, mgi = {}, {}, {}, {}
    rxs = []
    for o in r['opts']:
        if o[0].startswith('--map'):
            a, b = enc(o[1]).split(b'=')
            if o[0] == '--map-user': mu[a] = b
            if o[0] == '--map-group': mg[a] = b
            if o[0] == '--map-uid': mui[int(a)] = int(b)
            if o[0] == '--map-gid': mgi[int(a)] = int(b)
        if o[0] == '--exclude-rx':
            rxs.append(re.compile(enc(o[1])))
    numeric = ['--numeric-ids'] in r['opts']
    un, gn = names(acc0)
    ui, gi = ids(acc1)
    def owner(n, names, m, mi, ids):
        nm = names.get(n, b'')
        nm = m.get(nm, nm)
        n = mi.get(n, n)
        if not numeric and n != 0 and nm and nm in ids:
            return ids[nm]
        return n
    def acl(v):
        nonlocal fails
        if numeric:
            return v
        out = []
        for part in v.split(b'/'):
            es = []
            for e in part.split(b','):
                if e.count(b':') == 2:
                    t, w, pm = e.split(b':')
                    if w:
                        nm = (un if t == b'u' else gn).get(int(w))
                        if nm is not None:
                            w2 = (ui if t == b'u' else gi).get(nm)
                            if w2 is None:
                                fails = True
                                return None
                            w = b'%d' % w2
                    e = b':'.join((t, w, pm))
                es.append(e)
            out.append(b','.join(es))
        return b'/'.join(out)
    res = {}
    groups = {}
    def put(out, rel, full):
        """full: path as the exclusions see it."""
        d = snap[rel]
        isdir = d['kind'] == stat.S_IFDIR
        if any(x.search(full + (b'/' if isdir else b'')) for x in rxs):
            return
        res[out] = conv(d)
        if 'links' in d:
            groups.setdefault(d['links'], []).append(out)
        if isdir:
            pre = rel + b'/' if rel else b''
            for p in snap:
                if p and p.startswith(pre) and b'/' not in p[len(pre):]:
                    put(out + b'/' + p[len(pre):] if out else p[len(pre):], p, full + b'/' + p[len(pre):])
    def conv(d):
        e = {k: v for k, v in d.items() if k != 'links'}
        e['uid'] = owner(d['uid'], un, mu, mui, ui)
        e['gid'] = owner(d['gid'], gn, mg, mgi, gi)
        if 'xattrs' in e:
            x = [(k, acl(v) if k == b'\0acl' else v) for k, v in e['xattrs']]
            x = tuple((k, v) for k, v in x if v is not None)
            e['xattrs'] = x
            if not x:
                del e['xattrs']
        return e
    for q in r['paths']:
        q = enc(q)
        slash = q.endswith(b'/') or q == b''
        dot = q == b'.' or q.endswith(b'/.')
        rel = q[:-1] if dot else q
        rel = rel.strip(b'/')
        if rel not in snap:
            return None, None, True
        if slash or dot:
            hops = 0
            while snap[rel]['kind'] == stat.S_IFLNK: # (followed, as by the system)
                hops += 1
                t = os.path.normpath(os.path.join(os.path.dirname(rel), snap[rel]['target']))
                t = b'' if t == b'.' else t
                if hops > 20 or snap[rel]['target'].startswith(b'/') or b'..' in snap[rel]['target'] or t not in snap:
                    return None, None, None # (not judged)
                rel = t
            if snap[rel]['kind'] != stat.S_IFDIR:
                return None, None, True
            if dot:
                res[b''] = conv(snap[rel])
            pre = rel + b'/' if rel else b''
            for p in snap:
                if p and p.startswith(pre) and b'/' not in p[len(pre):]:
                    put(p[len(pre):], p, b'/' + p[len(pre):])
        else:
            leaf = rel.rsplit(b'/', 1)[-1]
            put(leaf, rel, b'/' + leaf)
    for g in groups.values():
        g = sorted(set(g))
        if len(g) > 1:
            for p in g:
                res[p]['links'] = tuple(g)
    return res, None, fails

def execute(plan, rec):
    cfg = plan['cfg']
    l = Lab(dict(cfg, trace=plan.get('trace')))
    host = l.host
    if 'gecos' in cfg:
        acc = host.accounts
        me = [] if cfg['gecos'] is None else [(b'root', 0, 0, enc(cfg['gecos']))]
        host.accounts = dict(acc, pw=me + [e for e in acc['pw'] if e[1]])
        rec.probe('gecos')
    rem = ['-r', 'srv:/r'] if cfg.get('srv') else []
    dst = l.srv if rem else host
    snaps = []
    for n, ed in enumerate(plan['saves']):
        l.do(['fs', ed])
        l.sleep(2 * SEC)
        run_pre(l, [B('index', '/src'), B('save', *rem, '-n', 'main', '/src')])
        snaps.append(snapshot(host.fs, SRC))
    if not snaps:
        return
    acc0 = host.accounts
    if any(any(k == b'\0acl' for k, v in d.get('xattrs', ())) for d in snaps[-1].values()):
        rec.probe('acl')
    if any('links' in d for d in snaps[-1].values()):
        rec.probe('hardlinks')
    if any(e[0] == 'many' for e in plan['saves'][0]):
        rec.probe('wide')
    for n, r in enumerate(plan['restores']):
        one(l, plan, rec, dst, snaps, r, f'restore {n}', acc0)
    rec.world(l.w)
    l.close()

def one(l, plan, rec, dst, snaps, r, what, acc0):
    host = l.host
    k = min(r['save'], len(snaps) - 1)
    snap = snaps[k]
    repo = Repo(dst.fs)
    hist = repo.history(repo.refs()[b'refs/heads/main'])
    name = lab.save_names(repo, hist)[len(snaps) - 1 - k]
    if k == len(snaps) - 1 and r['seed'] % 2:
        name = b'latest'
        rec.probe('latest')
    if k != len(snaps) - 1:
        rec.probe('old-save')
    acc1 = ACCOUNTS[r['acc']] or acc0
    if r['acc']:
        rec.probe('accounts')
    exp, _, fails = expect(snap, r, acc0, acc1)
    if fails is None:
        return
    opts = [x for o in r['opts'] for x in o]
    for o in r['opts']:
        rec.probe({'--sparse': 'sparse', '-r': 'remote', '--numeric-ids': 'numeric', '--exclude-rx': 'excluded'}.get(o[0], 'mapped'))
    if r['uid']:
        if any('\0' in p for p in r['paths']) or exp is None or any(d['kind'] in (stat.S_IFCHR, stat.S_IFBLK) or d.get('xattrs') or d.get('attr') for d in exp.values()):
            return
        rec.probe('user')
        # (someone else's repository readable by all: the simulated files are)
    paths = [b'/main/' + name + b'/src' + (b'/' + enc(p) if p not in ('', '/') else b'/') for p in r['paths']]
    if len(paths) > 1:
        rec.probe('multi')
    elif r['paths'][0] in ('', '/', '.'):
        rec.probe('whole')
    elif exp and len(exp) > 1:
        rec.probe('subtree')
    else:
        rec.probe('file')
    rec.state((repo.commit(hist[len(snaps) - 1 - k])['tree'], r['paths'], opts, r['acc'], r['uid']))
    host.accounts = acc1
    out = b'/tmp/out'
    def go(**kw):
        host.fs.remove_tree(out)
        if r['uid']:
            host.fs.mkdirs(out)
            host.fs.lookup(out).uid = r['uid']
        p = start(**kw)
        return finish(p)
    argv = [b'bup', b'restore', *[enc(o) for o in opts], b'-C', out, *paths]
    def start(**kw):
        return lab.start(l.w, host, argv, uid=r['uid'], gid=r['uid'] and 50, **kw)
    def finish(p):
        l.w.run(p)
        lab.settle(l.w)
        return lab.result(p)
    def complete(x, why=''):
        if l.w.harness_errors:
            raise HarnessError(str(l.w.harness_errors[0]))
        where = f'{what}{why} {opts} {r["paths"]} of save {k}'
        if exp is None:
            if x.rc == 0:
                raise Violation('false-success', f'{where}: exit 0 though a path does not exist or is not a directory')
            return
        if fails and x.rc == 0:
            raise Violation('false-success', f'{where}: exit 0 though metadata could not be applied')
        if not fails and x.rc:
            raise Violation('restore-failed', f'{where}: exit {x.rc}: {x.err[-600:].decode("utf-8", "replace")}')
        got = snapshot(host.fs, out)
        d = compare(exp, got, r, fails)
        if d:
            raise Violation('wrong-restore', f'{where}: ' + '; '.join(d[:4]))
    try:
        if r.get('with') and exp is not None:
            # something else happens in the repository meanwhile
            op = list(r['with'])
            if dst is not host:
                if op[1][0] == 'save':
                    op = B('save', '-r', 'srv:/r', '-n', 'other', '/src')
                else:
                    op = op[:2] + [{'host': 'srv'}]
            host.fs.remove_tree(out)
            if r['uid']:
                host.fs.mkdirs(out)
                host.fs.lookup(out).uid = r['uid']
            host.accounts = acc0
            q = l.start(op)
            host.accounts = acc1
            p = start()
            l.w.run_until(lambda: p.dead and q.dead)
            lab.settle(l.w)
            rec.probe('concurrent')
            if l.w.harness_errors:
                raise HarnessError(str(l.w.harness_errors[0]))
            if lab.result(q).rc:
                raise Violation('command-failed', f'{op} during {what}: {lab.result(q).err[-500:].decode("utf-8", "replace")}')
            complete(lab.result(p))
            return
        seen = {}
        def obs(p, call, path, info):
            if call in ERRS and not p.aux.get('startup'):
                k = (p.name().split()[0] if p.prog != b'git' else p.name(), p.host.name, call)
                seen[k] = seen.get(k, 0) + 1
        l.w.observers.append(obs)
        x = go()
        l.w.observers.remove(obs)
        complete(x)
        if r.get('again') and exp is not None and not any(d['kind'] == stat.S_IFDIR or 'links' in d for p, d in exp.items() if p):
            # over what is there
            x = finish(start())
            rec.probe('again')
            complete(x, ' again')
        if r.get('fault') and exp is not None and not fails:
            rng = subrng(r['seed'], 'faults')
            for _ in range(r['fault']):
                k = rng.choice(sorted(seen))
                spec = {'prog': k[0], 'host': k[1], 'calls': [k[2]], 'nth': rng.randrange(seen[k]), 'persist': rng.random() < .15}
                if k[2] in ('read', 'write') and rng.random() < .4:
                    spec['action'] = 'short'
                elif rng.random() < .1:
                    spec['action'] = 'int' if k[0] == 'bup' else 'kill'
                elif ERRS[k[2]]:
                    spec['action'], spec['errno'] = 'err', rng.choice(ERRS[k[2]])
                else:
                    continue
                rec.trials += 1
                f = Fault(spec)
                l.w.faults.append(f)
                try:
                    x = go()
                except SimHang as ex:
                    raise Violation('hang', f'{what}: {spec} at {f.where}: {ex}')
                finally:
                    l.w.faults.clear()
                if f.fired:
                    rec.probe('fault-survived' if x.rc == 0 else 'fault-failed')
                if x.rc == 0:
                    complete(x, f' ({spec["action"]} {spec.get("errno", "")} at {f.where})')
    finally:
        host.accounts = acc0
        host.fs.remove_tree(out)

def compare(exp, got, r, fails):
    exp = dict(exp)
    if b'' not in exp and b'' in got:
        got = {p: d for p, d in got.items() if p}
    if r['uid']:
        exp = {p: {k: v for k, v in d.items() if k not in ('uid', 'gid')} for p, d in exp.items()}
        got = {p: {k: v for k, v in d.items() if k not in ('uid', 'gid')} for p, d in got.items()}
    if fails:
        exp = {p: {k: v for k, v in d.items() if k != 'xattrs'} for p, d in exp.items()}
        got = {p: {k: v for k, v in d.items() if k != 'xattrs'} for p, d in got.items()}
    return diff_snap(exp, got, ('saved', 'restored'))
