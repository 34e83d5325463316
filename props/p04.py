"""I/O errors are reported and never corrupt the repository."""

from .common import *
from .p02 import history, TARGETS

ID = 'P04'
RULE = ('A plan is a generated history followed by one target command (save, save -r, split, get, rm, prune-older, gc, midx, bloom, '
        'tag, index). The target runs once without faults; then, each time from the same starting state, with a fault in one '
        'sampled system call on the repository by bup or by a git it runs: EIO, ENOSPC, EDQUOT, EACCES, EMFILE, ENOMEM once or persistently, a short '
        'read or write, an interrupt (SIGINT), or the death of the git process. Exit status 0 must mean the fault-free outcome, refs must hold old or '
        'new values and be complete, packs valid, and a retry without faults and a further save must give the right content. '
        'Distinct non-trivial: different (program, call, path kind, fault, outcome) combinations.')
ASSUMPTIONS = ['git update-ref is atomic', 'a git that hits an I/O error exits with status 128']
SHRINK = ['pre', 'pre.*.1', 'edits']
PROBES = ['target-save', 'target-gc', 'target-rm', 'target-split', 'target-get', 'target-midx', 'fault-but-ok', 'fault-failed',
          'disk-full', 'many-packs']
KINDS = ('save', 'save', 'gc', 'gc', 'rsave', 'split', 'get', 'rm', 'prune', 'midx', 'bloom', 'index', 'tag')
TRIALS = 14

ERRS = {
    'read': ('EIO',), 'write': ('ENOSPC', 'EIO', 'EDQUOT'), 'fsync': ('EIO', 'ENOSPC'),
    'rename': ('EIO', 'ENOSPC', 'EACCES'), 'open': ('EIO', 'EMFILE', 'ENOMEM', 'EACCES'),
    'creat': ('ENOSPC', 'EMFILE', 'EIO', 'EACCES'), 'unlink': ('EIO', 'EACCES'), 'mkdir': ('ENOSPC', 'EIO', 'EACCES'),
    'rmdir': ('EIO',), 'stat': ('EIO', 'ENOMEM'), 'mmap': ('ENOMEM',), 'truncate': ('ENOSPC', 'EIO'),
    'listdir': ('EIO',), 'scandir': ('EIO',), 'fstat': ('EIO',), 'lseek': (), 'close': ('EIO',),
    'link': ('EIO', 'ENOSPC'), 'access': ('EIO',), 'chmod': ('EIO',), 'utime': ('EIO',), 'msync': ('EIO',),
}

def plan(rng, tier, i):
    kind = KINDS[i % len(KINDS)]
    srv = kind == 'rsave'
    cfg = base_cfg(rng, srv=srv)
    if srv:
        cfg['srv_config'] = repo_config(rng)
    g = treegen(rng, rich=rng.random() < .2, maxsize=60000)
    pre, branches, tags = history(rng, cfg, rng.randint(0, 5), g)
    edits = g.edits(rng.randint(1, 6))
    many = kind in ('save', 'rsave', 'get') and rng.random() < .35
    if many: # several packs per run
        lim = rng.choice((8000, 20000, 40000))
        which = 'srv_config' if srv else 'config'
        cfg[which] = split_config(rng) + f'[pack]\n\tpackSizeLimit = {lim}\n'
        edits += [['write', f'many{n}', ['rand', rng.randrange(1000), rng.randint(lim // 10, lim // 2)]] for n in range(rng.randint(5, 12))]
        if kind == 'get':
            pre += [['fs', edits], B('index', '/src'), B('save', '-n', 'main', '/src')]
    if kind == 'gc' and rng.random() < .4: # packs of nothing but blobs
        cfg['config'] = split_config(rng) + '[pack]\n\tpackSizeLimit = %d\n' % rng.choice((2000, 5000, 10000))
    if kind in ('save', 'rsave', 'index'):
        pre.append(['fs', edits])
        if kind != 'index':
            pre.append(B('index', '/src'))
        r = ['-r', 'srv:/r'] if srv else []
        t = B('save', *r, '-n', rng.choice(branches), '/src') if kind != 'index' else B('index', '/src')
    elif kind == 'split':
        t = B('split', '-n', rng.choice(('sp', 'new')), stdin=gen.rand_spec(rng, .7, 100000))
    elif kind == 'get':
        t = ['bup', ['-d', '/r2', 'get', '-s', '/r', *rng.choice((['--ff:', 'main', 'm2'], ['--append:', 'main', 'x'],
                                                               ['--pick:', '@oid:main:0', 'new'], ['--new-tag:', 'main', 'nt']))]]
    elif kind == 'rm':
        t = B('rm', '--unsafe', rng.choice(('/' + rng.choice(branches), '/main/@save:main:0', '/main/@save:main:1')))
    elif kind == 'prune':
        t = B('prune-older', '--unsafe', *(['--gc'] if rng.random() < .5 else []),
              *rng.choice((['--keep-all-for', '1s'], ['--keep-dailies-for', '3d'], ['--keep-monthlies-for', 'forever'])))
    elif kind == 'gc':
        if rng.random() < .8:
            b = rng.choice(branches[1:] or ['main/@save:main:0'])
            pre.append(B('rm', '--unsafe', '/' + b))
        t = B('gc', '--unsafe', '--threshold', str(rng.choice((0, 0, 10, 50))))
    elif kind == 'midx':
        t = B('midx', *rng.choice((['-f'], ['-a'])))
    elif kind == 'bloom':
        t = B('bloom', *rng.choice(([], ['-f'])))
    else:
        t = B('tag', *rng.choice((['nt', 'main'], ['-f', 't0', 'main'], ['-f', '-d', 't0'])))
    return {'cfg': cfg, 'kind': kind, 'pre': pre, 'target': t, 'tseed': rng.randrange(1 << 30),
            'after': treegen(rng, rich=False).edits(2), 'many': many}

def sample(p):
    return {'target': p['target'], 'pre': p['pre'][:6]}

def outcome(r):
    """What a repository holds, apart from dates."""
    out = {}
    for n, o in r.refs().items():
        t = r.type(o)
        if t == b'commit':
            out[n] = [r.commit(c)['tree'] for c in r.history(o)]
        else:
            out[n] = o
    return out

def bad_packs(r):
    return [f'{dec(a)}: {b}' for a, b in r.problems]

class Stage:
    """A starting state from which commands can be run again and again."""
    def __init__(self, plan, rec):
        l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
        if plan['kind'] == 'get':
            l.bup('-d', '/r2', 'init')
            l.add_config(l.host, b'/r2', plan['cfg'].get('config') or '')
        run_pre(l, plan['pre'])
        self.fs = {n: h.fs for n, h in l.w.hosts.items()}
        self.now = l.w.epoch + l.w.now
        self.cfg = dict(plan['cfg'], trace=plan.get('trace'))
        rec.world(l.w)
        l.close()

    def lab(self, seed, **kw):
        l = Lab(dict(self.cfg, epoch=self.now + 5 * SEC, seed=seed, **kw), fs=self.fs['host'].clone())
        if 'srv' in self.fs:
            l.use_fs('srv', self.fs['srv'].clone())
        return l

def path_kind(path):
    if path is None:
        return '-'
    b = path.rsplit(b'/', 1)[-1]
    for e in (b'.pack', b'.idx', b'.midx', b'.bloom', b'bupindex', b'.meta', b'.hlink', b'.lock', b'config', b'HEAD'):
        if b.endswith(e):
            return dec(e)
    return dec(path.rsplit(b'/', 2)[-2][:6] if b'/' in path[1:] else path)

def interesting(path):
    return path is None or path.startswith((b'/r', b'/root', b'/tmp'))

def execute(plan, rec):
    st = Stage(plan, rec)
    kind = plan['kind']
    rec.probe('target-' + ('save' if kind == 'rsave' else kind))
    if plan.get('many'):
        rec.probe('many-packs')
    dest = b'/r2' if kind == 'get' else REPO
    hname = 'srv' if kind == 'rsave' else 'host'
    r0 = Repo(st.fs[hname], dest)
    must_complete(r0, 'before the target')
    out0, refs0 = outcome(r0), r0.refs()
    # without faults
    l = st.lab(plan['tseed'])
    seen = {}
    def count(p, call, path, info):
        if call in ERRS and interesting(path):
            k = (p.name().split()[0] if p.prog != b'git' else p.name(), p.host.name, call)
            seen[k] = seen.get(k, 0) + 1
    l.w.observers.append(count)
    r = l.do(plan['target'])
    l.w.observers.clear()
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    ok = r.rc == 0
    rgood = Repo(l.w.hosts[hname].fs, dest)
    must_complete(rgood, 'after the target')
    good = outcome(rgood)
    good_refs = set(good)
    rec.world(l.w)
    l.close()
    if not ok:
        rec.probe('refused')
        return
    if plan.get('fault'):
        trial(plan, st, rec, plan['fault'], dest, hname, out0, good)
        return
    keys = sorted(seen)
    rng = subrng(plan['tseed'], 'faults')
    ends = [k for k in keys if k[2] in ('fsync', 'rename', 'mkdir', 'creat', 'unlink')] # (at the end of a pack)
    for n in range(TRIALS):
        k = rng.choice(ends if ends and plan.get('many') and rng.random() < .5 else keys)
        if kind == 'gc' and rng.random() < .2: # (git then says 'missing')
            k = rng.choice([k for k in keys if k[0] == 'git cat-file' and k[2] in ('open', 'read', 'listdir', 'mmap')] or [k])
        prog, host, call = k
        spec = {'prog': prog, 'host': host, 'calls': [call], 'nth': rng.randrange(seen[k]), 'seed': rng.randrange(1 << 30)}
        x = rng.random()
        if x < .12:
            spec['action'] = 'int' if prog == 'bup' else 'kill'
        elif call in ('read', 'write') and x < .35:
            spec['action'] = 'short'
            spec['persist'] = rng.random() < .3
        elif ERRS[call]:
            spec['action'] = 'err'
            spec['errno'] = rng.choice(ERRS[call])
            if spec['errno'] in ('ENOSPC', 'EDQUOT'):
                spec['calls'] = ['write', 'creat', 'mkdir', 'truncate'] if rng.random() < .5 else [call]
                spec['persist'] = rng.random() < .6
            elif rng.random() < .15:
                spec['persist'] = True
        else:
            continue
        try:
            trial(plan, st, rec, spec, dest, hname, out0, good)
        except Violation as ex:
            ex.pin = {'fault': spec}
            raise

def trial(plan, st, rec, spec, dest, hname, out0, good):
    rec.trials += 1
    l = st.lab(spec['seed'])
    class F(Fault):
        def matches(self, w, p, call, path):
            return super().matches(w, p, call, path) and interesting(path)
    f = F(spec)
    l.w.faults.append(f)
    try:
        r = l.do(plan['target'])
    except SimHang as ex:
        raise Violation('hang', f'{spec["action"]} {spec.get("errno", "")} at {f.where}: {ex}')
    l.w.faults.clear()
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    if not f.fired:
        rec.probe('fault-not-reached')
    what = f'{spec["action"]} {spec.get("errno", "")}{" (persistent)" if spec.get("persist") else ""} at {f.where}'
    if spec.get('persist') and spec.get('errno') in ('ENOSPC', 'EDQUOT'):
        rec.probe('disk-full')
    try:
        judge(plan, l, rec, r, what, dest, hname, out0, good)
    except Violation as ex:
        ex.msg = f'{what} (exit {r.rc}): {ex.msg} [{r.err[-300:].decode("utf-8", "replace")}]'
        raise
    rec.probe('fault-but-ok' if r.rc == 0 else 'fault-failed')
    rec.state(spec['prog'], spec['calls'][0], spec['action'], spec.get('errno'), plan['kind'],
              path_kind((f.where or '').split("b'")[-1].split("'")[0].encode('latin-1', 'replace')), r.rc == 0)
    rec.world(l.w)
    l.close()

def judge(plan, l, rec, r, what, dest, hname, out0, good):
    kind = plan['kind']
    host = l.w.hosts[hname]
    rr = Repo(host.fs, dest)
    try:
        got = outcome(rr)
    except (Bad, Missing) as ex:
        raise Violation('bad-ref', str(ex))
    must_complete(rr, 'after the failure')
    bp = bad_packs(rr)
    if bp:
        raise Violation('bad-pack', '; '.join(bp[:3]))
    for n in set(out0) | set(good) | set(got):
        if got.get(n) not in (out0.get(n), good.get(n)):
            if r.rc != 0 and kind in ('save', 'rsave') and (got.get(n) or [])[1:] == out0.get(n, []):
                # what could not be read or stored has been reported and left out
                rec.probe('partial-save')
                check_content(rr, rr.refs()[n], l.host.fs, SRC, partial=True)
                continue
            raise Violation('ref-garbage', f'{dec(n)} is neither the old nor the new value')
    if r.rc == 0 and got != good:
        d = [dec(n) for n in set(good) | set(got) if got.get(n) != good.get(n)]
        raise Violation('silent-failure', f'exit status 0, but {d} is not what the command leaves without the fault')
    # retry
    l.sleep(3 * SEC)
    if r.rc != 0 and got != good or kind in ('gc', 'midx', 'bloom', 'index'):
        t = plan['target']
        x = l.do(t)
        rx = Repo(host.fs, dest)
        if x.rc != 0:
            raise Violation('retry-failed', f'the retry exited {x.rc}: {x.err[-500:].decode("utf-8", "replace")}')
        must_complete(rx, 'after the retry')
        new = outcome(rx)
        if new != good and got == out0: # (a partly done command may have more to do)
            d = [dec(n) for n in set(good) | set(new) if new.get(n) != good.get(n)]
            raise Violation('retry-wrong', f'{d} is wrong after a retry')
    if kind == 'prune' and r.rc != 0:
        # (the command is now done with the saves, but an interrupted gc has to be repeated)
        x = l.bup('gc', '--unsafe')
        if x.rc != 0:
            raise Violation('retry-failed', f'gc exited {x.rc}: {x.err[-500:].decode("utf-8", "replace")}')
    # the next backup
    l.do(['fs', plan['after']])
    l.sleep(2 * SEC)
    rem = ['-r', 'srv:/r'] if hname == 'srv' else []
    for a in (['-d', dec(dest), 'index', '/src'], ['-d', dec(dest), 'save', *rem, '-n', 'after', '/src']):
        x = l.bup(*a)
        if x.rc != 0:
            raise Violation('next-failed', f'{a} exited {x.rc}: {x.err[-500:].decode("utf-8", "replace")}')
    rx = Repo(host.fs, dest)
    must_complete(rx, 'after the next save')
    check_content(rx, rx.refs()[b'refs/heads/after'], l.host.fs, SRC)

def check_content(r, commit, fs, top, partial=False, at=None):
    """Compare file contents (and link targets) of a save of `top` with the file system."""
    tree = r.commit(commit)['tree']
    for part in (top if at is None else at.encode()).strip(b'/').split(b'/'):
        if not part:
            continue
        ents = r.dir(tree)
        if part not in ents:
            if partial:
                return
            raise Violation('wrong-save', f'{part!r} is not in the save')
        tree = ents[part][2]
    got = r.content(tree)
    want = {}
    for p, i in fs.tree(top):
        rel = p[len(top):].lstrip(b'/')
        if i.entries is not None:
            want[rel] = ('dir', None)
        elif i.data is not None:
            want[rel] = ('file', bytes(i.data))
        elif i.target is not None:
            want[rel] = ('link', i.target)
        else:
            want[rel] = ('file', b'')
    if partial:
        want = {p: v for p, v in want.items() if p in got}
    if got != want:
        for p in sorted(set(got) | set(want)):
            a, b = want.get(p), got.get(p)
            if a != b:
                raise Violation('wrong-save', f'{p!r}: {short(a)} on disk, {short(b)} in the save')

def short(x):
    if x is None:
        return 'nothing'
    return f'{x[0]} {len(x[1]) if x[1] is not None else ""}'
