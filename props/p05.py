"""Incremental saves equal full saves for any edit history."""

from .common import *
from .p04 import check_content

ID = 'P05'
RULE = ('A plan is a source tree and a sequence of rounds: edits, pauses or clock steps (time stamp resolution 1 ns, 4 ms, or '
        '1 s), optional partial indexing, maintenance or removal of saves, then index and save with sampled options. After each '
        'save its tree is compared with the file contents, with the tree that a fresh index and repository give '
        'for the same file system, and (by restoring) with all metadata. '
        'Distinct non-trivial: different (source snapshot, previous index) pairs at a save after the first.')
ASSUMPTIONS = ['a change that leaves size, inode, link count, mtime and ctime as they were when indexed more than a second after them is undetectable and not generated',
               'sources do not change while index and save run (P18)']
SHRINK = ['rounds', 'rounds.*.edits', 'rounds.*.before']
PROBES = ['compared-fresh', 'compared-restore', 'quick-edit', 'hardlinks', 'clock-step', 'partial-index', 'split-trees', 'rm-gc', 'reindexed', 'resave', 'remote', 'partial-save', 'mapped-save', 'smaller', 'excluded', 'wide']

def save_args(rng, g):
    ds = [dec(d) for d in g.dirs() if d]
    fs = [dec(d) for d in g.files() if d]
    x = rng.random()
    if x < .6 or not ds:
        return ['/src']
    if x < .8:
        return [rng.choice(('--strip', '--strip-path=/src', '--graft=/src=/moved', '--graft=/src=/a/b', '--graft=/src=/')), '/src']
    d = '/src/' + rng.choice(ds)
    if x < .9:
        return rng.choice(([], ['--strip'], [f'--strip-path={d}'], [f'--graft={d}=/x'] if '=' not in d else [])) + [d]
    more = ['/src/' + rng.choice(ds + fs) for _ in range(rng.randint(1, 2))]
    return rng.choice(([], [], ['--strip-path=/src'], ['--graft=/src=/y'])) + [d] + more

PLAIN = {'--strip': '', '--strip-path=/src': '', '--graft=/src=/moved': 'moved/', '--graft=/src=/a/b': 'a/b/', '--graft=/src=/': ''}

def plan(rng, tier, i):
    cfg = base_cfg(rng, srv=i % 5 == 4)
    cfg['gran'] = rng.choice((1, 4_000_000, SEC, SEC))
    g = treegen(rng, rich=rng.random() < .7, links=rng.random() < .6, big=.1, maxsize=50000)
    if cfg['srv']:
        cfg['srv_config'] = cfg['config'] # as otherwise they may split differently
    rem = ['-r', 'srv:/r'] if cfg['srv'] else []
    rounds = []
    for n in range(rng.randint(2, 6)):
        r = {'edits': g.edits(rng.randint(4, 12) if n == 0 else rng.choice((0, 1, 1, 2, 5))), 'before': []}
        if n == 0 and rng.random() < (.25 if 'trees' in cfg['config'] else .04):
            e = ['many', dec(rng.choice(g.dirs())), rng.choice(('m', '*', '*')), rng.choice((60, 200, 500)), rng.randrange(1000)]
            if gen.apply_edit(g.fs, g.base, e):
                r['edits'].append(e)
        if n and rng.random() < .4:
            # same-size rewrite of something
            fs = g.files()
            if fs:
                f = rng.choice(fs)
                r['edits'].append(['poke', dec(f), rng.randrange(1000), ['rand', rng.randrange(999), 3]])
        r['pause'] = rng.choice((0, 0, 0, 10**6, SEC // 2, 2 * SEC, 86400 * SEC)) if n else rng.choice((0, 3 * SEC))
        r['clock'] = rng.choice((0, 0, 0, 0, -SEC, -3600 * SEC, 3600 * SEC, 86400 * 400 * SEC)) if cfg['gran'] <= 4_000_000 else 0
        x = rng.random()
        if x < .12:
            ds = [dec(d) for d in g.dirs() if d]
            if ds:
                r['before'].append(B('index', *rng.choice(([], ['-x'])), '/src/' + rng.choice(ds)))
        elif x < .2:
            r['before'].append(B('index', '/src'))
        elif x < .25:
            r['before'].append(B('index', '--clear'))
        elif x < .3:
            r['before'].append(B('index', '-u', '--fake-invalid', '/src'))
        elif x < .35:
            r['before'] += [B('rm', '--unsafe', '/main'), B('gc', '--unsafe')]
        elif x < .4:
            r['before'].append(B('gc', '--unsafe'))
        elif x < .44:
            r['before'].append(B('midx', '-f'))
        elif x < .54:
            r['before'] += [B('index', '/src'), B('save', '--smaller=%d' % rng.choice((1, 100, 1000, 5000, 20000)), *rng.choice((['-n', 'small'], ['-n', 'main'], ['-t'])), *rem, '/src')]
        al = [dec(p) for p in g.all()]
        if rng.random() < .15 and al:
            ln = [dec(p[len(g.base) + 1:]) for p, x in g.fs.tree(g.base) if x.entries is None and x.nlink > 1]
            r['excl'] = rng.choice(ln if ln and rng.random() < .7 else al)
        r['save'] = save_args(rng, g)
        r['resave'] = rng.random() < .2
        r['gap'] = rng.choice((0, 0, 0, SEC // 3, 3 * SEC))
        rounds.append(r)
    return {'cfg': cfg, 'rounds': rounds}

def sample(p):
    return {'rounds': p['rounds'][:3], 'gran': p['cfg']['gran']}

def execute(plan, rec):
    cfg = plan['cfg']
    l = Lab(dict(cfg, trace=plan.get('trace')))
    host = l.host
    r3config = host.fs.read(REPO + b'/config')
    seen = {} # path -> {stat tuple: (data, trusted)}
    rem = ['-r', 'srv:/r'] if cfg.get('srv') else []
    dst = l.srv if rem else l.host
    if rem:
        rec.probe('remote')
    if b'trees = true' in r3config:
        rec.probe('split-trees')
        if any(e[0] == 'many' for e in plan['rounds'][0]['edits']):
            rec.probe('wide')
    for n, rd in enumerate(plan['rounds']):
        for e in rd['edits']:
            l.do(['fs', [e]])
        if n and rd['edits'] and rd.get('quick'):
            rec.probe('quick-edit')
        l.sleep(rd['pause'])
        if n and rd['pause'] < SEC and rd['edits']:
            rec.probe('quick-edit')
        if rd['clock']:
            host.clock_offset += rd['clock']
            if l.w.epoch + l.w.now + host.clock_offset < 10**9 * SEC:
                host.clock_offset = 0
            rec.probe('clock-step')
        for op in rd['before']:
            r = l.do(op)
            if op[1][0] == 'index':
                note(host, seen, l)
                rec.probe('reindexed' if op[1][-1] in ('/src', '--clear') else 'partial-index')
            elif op[1][0] == 'gc':
                rec.probe('rm-gc')
            elif op[1][0] == 'save':
                rec.probe('smaller')
            if r.rc and op[1][0] not in ('rm', 'index') or r.uncaught:
                raise SetupFailed(op, r)
        if rd.get('excl') and not undetectable(host, seen):
            without(l, dst, rem, rec, enc(rd['excl']), f'round {n}')
            note(host, seen, l)
        l.sleep(rd['gap'] // 2)
        if undetectable(host, seen):
            rec.probe('undetectable')
            return
        hl = any(i.entries is None and i.nlink > 1 for p, i in host.fs.tree(SRC))
        if hl:
            rec.probe('hardlinks')
        args = [*rem, '-n', 'main', *rd['save']]
        step(l, ['index', '/src'])
        note(host, seen, l)
        l.sleep(rd['gap'] // 2)
        step(l, ['save', *args])
        tree = verify(l, dst, rec, rd, f'round {n}')
        if n:
            rec.state(*sorted((p, i.size(), i.mtime, i.mode) for p, i in host.fs.tree(SRC)))
        if rd['resave']:
            # nothing has changed: the same tree, whether or not it is indexed again
            l.sleep(rd['gap'])
            step(l, ['save', *args])
            t2 = head_tree(dst, b'main')
            rec.probe('resave')
            if t2 != tree:
                verify(l, dst, rec, rd, f'round {n}, saved again')
                raise Violation('resave-differs', f'round {n}: saving again without any change gave a different tree')
        if not hl:
            # a fresh index and repository
            host.fs.remove_tree(b'/home/r3')
            step(l, ['-d', '/home/r3', 'init'])
            host.fs.put(b'/home/r3/config', r3config)
            step(l, ['-d', '/home/r3', 'index', '/src'])
            step(l, ['-d', '/home/r3', 'save', '-n', 'main', *rd['save']])
            f = Repo(host.fs, b'/home/r3')
            ft = f.commit(f.refs()[b'refs/heads/main'])['tree']
            rec.probe('compared-fresh')
            if ft != tree:
                raise Violation('not-as-fresh', f'round {n}: the tree differs from that of a fresh index and repository: '
                                + tree_diff(Repo(dst.fs), tree, f, ft))
    rec.world(l.w)
    l.close()

def without(l, dst, rem, rec, x, what):
    """A save of an index that excludes x."""
    step(l, ['index', b'--exclude=/src/' + x, '/src'])
    step(l, ['save', *rem, '-n', 'excl', '/src'])
    rec.probe('excluded')
    what += f', without {dec(x)}'
    must_complete(Repo(dst.fs), what)
    ref = snapshot(l.host.fs, SRC, skip=(x,))
    for d in ref.values():
        if len(d.get('links', ())) == 1:
            del d['links']
    l.host.fs.remove_tree(b'/tmp/out')
    r = l.bup('restore', *rem, '-C', '/tmp/out', '/excl/latest/src/.')
    if r.rc:
        raise Violation('restore-failed', f'{what}: {r.err[-600:].decode("utf-8", "replace")}')
    d = diff_snap(ref, snapshot(l.host.fs, b'/tmp/out'), ('file system', 'save'))
    if d:
        raise Violation('wrong-save', f'{what}: ' + '; '.join(d[:4]))

def step(l, a):
    r = l.bup(*a)
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    if r.rc:
        raise Violation('command-failed', f'{a} exited {r.rc}: {r.err[-600:].decode("utf-8", "replace")}')

def head_tree(host, b):
    r = Repo(host.fs)
    return r.commit(r.refs()[b'refs/heads/' + b])['tree']

def note(host, seen, l):
    now = host.wall_ns() - SEC
    for p, i in host.fs.tree(SRC):
        if i.entries is None:
            t = (i.size(), i.ino, i.nlink, i.mtime, i.ctime)
            seen.setdefault(p, {})[t] = (bytes(i.data) if i.data is not None else i.target, i.mtime < now and i.ctime < now)

def undetectable(host, seen):
    for p, i in host.fs.tree(SRC):
        if i.entries is None:
            x = seen.get(p, {}).get((i.size(), i.ino, i.nlink, i.mtime, i.ctime))
            if x and x[1] and x[0] != (bytes(i.data) if i.data is not None else i.target):
                return True
    return False

def verify(l, dst, rec, rd, what):
    r = Repo(dst.fs)
    must_complete(r, what)
    c = r.refs()[b'refs/heads/main']
    sub = 'src/'
    if len(rd['save']) == 2:
        sub = PLAIN.get(rd['save'][0])
    if rd['save'][-1] != '/src' or len(rd['save']) > 2 or sub is None:
        rec.probe('partial-save')
        return r.commit(c)['tree']
    if sub != 'src/':
        rec.probe('mapped-save')
    try:
        check_content(r, c, l.host.fs, SRC, at=sub)
    except Violation as ex:
        ex.msg = f'{what}: {ex.msg}'
        raise
    ref = snapshot(l.host.fs, SRC)
    l.host.fs.remove_tree(b'/tmp/out')
    rem = ['-r', 'srv:/r'] if dst is not l.host else []
    x = l.bup('restore', *rem, '-C', '/tmp/out', '/main/latest/' + sub + '.')
    if x.rc:
        raise Violation('restore-failed', f'{what}: {x.err[-600:].decode("utf-8", "replace")}')
    got = snapshot(l.host.fs, b'/tmp/out')
    d = diff_snap(ref, got, ('file system', 'save'))
    rec.probe('compared-restore')
    if d:
        raise Violation('wrong-save', f'{what}: ' + '; '.join(d[:4]))
    return r.commit(c)['tree']

def tree_diff(ra, a, rb, b, path=''):
    try:
        x = {n: (m, o) for m, n, o in ra.tree(a)}
        y = {n: (m, o) for m, n, o in rb.tree(b)}
    except Bad:
        return f'{path} differs'
    for n in sorted(set(x) | set(y)):
        if x.get(n) != y.get(n):
            if n in x and n in y and x[n][0] == y[n][0] == 0o40000:
                return tree_diff(ra, x[n][1], rb, y[n][1], path + '/' + dec(n))
            if n == b'.bupm' and n in x and n in y and ra.type(x[n][1]) == rb.type(y[n][1]) == b'blob':
                return f'{path}/.bupm: {ra.get(x[n][1])!r} / fresh {rb.get(y[n][1])!r}'
            return f'{path}/{dec(n)}: {"present" if n in x else "absent"} / fresh {"present" if n in y else "absent"}'
    return 'no visible difference'
