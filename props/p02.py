"""Every crash leaves a repository whose refs are complete."""

from .common import *

ID = 'P02'
RULE = ('A plan is a generated history (source edits, index, save, split, tag, get, midx, bloom) followed by one '
        'target command (save, save -r, split, get, rm, prune-older, gc, midx, bloom, tag, init, fsck -g). While the target '
        'runs, crash images of the machine are taken before sampled system calls: processes killed, or power loss '
        'with nothing, everything or a random admissible part of the unsynchronised state surviving. Each image is one '
        'evaluation. Distinct non-trivial: different surviving repository states (hash of all files below the repository) '
        'that differ from the state before the target.')
ASSUMPTIONS = ['git update-ref is atomic and durable (modelled, as with its default fsync setting)',
               'an fsynced file keeps its content, an fsynced directory its entries; unsynced entries of one directory survive in order']
SHRINK = ['pre', 'pre.*.1', 'edits']
PROBES = ['target-save', 'target-rsave', 'target-gc', 'target-rm', 'target-prune', 'target-get', 'target-split',
          'recovered']

TARGETS = ('save', 'save', 'save', 'rsave', 'rsave', 'split', 'get', 'rget', 'rm', 'prune', 'gc', 'gc', 'gc', 'midx', 'bloom', 'tag',
           'init', 'fsckg')


def history(rng, cfg, n, g, *, ops=('split', 'tag', 'midx', 'bloom', 'rm', 'gc', 'branch')):
    """Operations building a repository with several saves."""
    pre = [['fs', g.edits(rng.randint(3, 14))]]
    branches = ['main']
    tags = []
    def save(b):
        pre.append(B('index', '/src'))
        pre.append(B('save', '-n', b, *(['-1'] if rng.random() < .1 else []), '/src'))
        pre.append(['sleep', rng.choice((2, 2, 86400, 40 * 86400)) * SEC])
    save('main')
    for i in range(n):
        x = rng.random()
        if x < .45:
            pre.append(['fs', g.edits(rng.randint(1, 6))])
            save(rng.choice(branches))
        elif x < .55 and 'branch' in ops:
            b = rng.choice(('other', 'b-x', 'third'))
            if b not in branches:
                branches.append(b)
            save(b)
        elif x < .65 and 'split' in ops:
            b = rng.choice(('sp', 'sp2'))
            if b not in branches:
                branches.append(b)
            pre.append(B('split', '-n', b, stdin=gen.rand_spec(rng, .4)))
            pre.append(['sleep', 2 * SEC])
        elif x < .75 and 'tag' in ops:
            t = 't%d' % len(tags)
            tags.append(t)
            pre.append(B('tag', t, rng.choice(branches)))
        elif x < .82 and 'midx' in ops:
            pre.append(B('midx', rng.choice(('-f', '-a'))))
        elif x < .88 and 'bloom' in ops:
            pre.append(B('bloom', *rng.choice(([], ['-f'], ['-k', '4'], ['-f', '-k', '5']))))
        elif x < .94 and 'rm' in ops and len(branches) > 1:
            b = branches.pop(rng.randrange(1, len(branches)))
            pre.append(B('rm', '--unsafe', '/' + b))
        elif 'gc' in ops:
            pre.append(B('gc', '--unsafe', *(['--threshold', str(rng.choice((0, 10, 50)))])))
    return pre, branches, tags


def plan(rng, tier, i):
    kind = TARGETS[i % len(TARGETS)]
    srv = kind in ('rsave', 'rget')
    cfg = base_cfg(rng, srv=srv)
    if srv:
        cfg['srv_config'] = repo_config(rng)
    g = treegen(rng, rich=rng.random() < .3)
    pre, branches, tags = history(rng, cfg, rng.randint(0, 5), g)
    edits = []
    t = None
    if kind in ('save', 'rsave'):
        edits = g.edits(rng.randint(1, 8))
        r = ['-r', 'srv:/r'] if kind == 'rsave' else []
        if kind == 'rsave' and rng.random() < .6:
            pre.append(B('save', *r, '-n', 'main', '/src'))
            pre.append(['sleep', 2 * SEC])
        pre.append(['fs', edits])
        pre.append(B('index', '/src'))
        t = B('save', *r, '-n', rng.choice(branches + ['new']), '/src')
    elif kind == 'split':
        t = B('split', '-n', rng.choice(('sp', 'new')), stdin=gen.rand_spec(rng, .7, 300000))
    elif kind in ('get', 'rget'):
        r = ['-r', 'srv:/r'] if kind == 'rget' else []
        if kind == 'get':
            pre.append(['dir', '/r2'])
            r = []
        m = rng.choice((['--ff', 'main'], ['--append', 'main'], ['--pick:', '@oid:main:0', 'new'],
                        ['--replace:', 'main', 'new'], ['--new-tag:', 'main', 'nt'],
                        ['--append:', 'main', 'x', '--append:', branches[-1], 'y']))
        t = B('get', '-s', '/r', *r, *m) if kind == 'rget' else \
            ['bup', ['-d', '/r2', 'get', '-s', '/r', *m]]
    elif kind == 'rm':
        t = B('rm', '--unsafe', rng.choice(('/' + rng.choice(branches), '/main/@save:main:0', '/main/@save:main:1')))
    elif kind == 'prune':
        t = B('prune-older', '--unsafe', *(['--gc'] if rng.random() < .3 else []),
              *rng.choice((['--keep-all-for', '1s'], ['--keep-dailies-for', '3d'], ['--keep-monthlies-for', 'forever'])))
    elif kind == 'gc':
        if rng.random() < .8:
            b = rng.choice(branches[1:] or ['main/@save:main:0'])
            pre.append(B('rm', '--unsafe', '/' + b))
        t = B('gc', '--unsafe', '--threshold', str(rng.choice((0, 0, 10, 50))))
    elif kind == 'midx':
        t = B('midx', *rng.choice((['-f'], ['-a'], ['-f', '-p'])))
    elif kind == 'bloom':
        t = B('bloom', *rng.choice(([], ['-f'])))
    elif kind == 'tag':
        t = B('tag', *rng.choice((['nt', 'main'], ['-f', 't0', 'main'], ['-f', '-d', 't0'])))
    elif kind == 'init':
        t = B('init')
    elif kind == 'fsckg':
        t = B('fsck', '-g')
    pre = [x for x in pre if x[0] != 'dir' or x]
    return {'cfg': cfg, 'kind': kind, 'pre': pre, 'target': t, 'sync': rng.random() < .6,
            'prob': rng.choice((.3, .6, 1.0)), 'tseed': rng.randrange(1 << 30),
            'cold': rng.random() < .3}

def sample(p):
    return {'target': p['target'], 'pre': p['pre'][:6], 'cfg': p['cfg']}


def world(plan, rec):
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
    if any(x[0] == 'dir' for x in plan['pre']) or (plan['target'] and '/r2' in plan['target'][1]):
        r = l.bup('-d', '/r2', 'init')
        l.add_config(l.host, b'/r2', plan['cfg'].get('config2') or plan['cfg'].get('config') or '')
        l.host.fs.sync_all()
    run_pre(l, [x for x in plan['pre'] if x[0] != 'dir'])
    if plan['sync']:
        for h in l.w.hosts.values():
            h.fs.sync_all()
    # what was on disk before bup ran (sources) is durable in any case
    return l


def execute(plan, rec):
    l = world(plan, rec)
    kind = plan['kind']
    host = l.srv if kind in ('rsave', 'rget') else l.host
    dest = b'/r2' if kind == 'get' else REPO
    rec.probe('target-' + kind)
    before = {p: Repo(host.fs, p).refs() for p in (REPO, dest)}
    for p in before:
        must_complete(Repo(host.fs, p), 'before the target')
    vals = {p: {} for p in before}
    for p in before:
        note_refs(vals[p], before[p])
    last = {}
    state0 = repo_state(host.fs, dest)
    keep = []

    def see_refs():
        for p in before:
            r = Repo.__new__(Repo)
            r.fs, r.path = host.fs, p
            cur = r.refs()
            if cur != last.get(p):
                last[p] = cur
                note_refs(vals[p], cur)
    changed = [-1]
    def watch(p, call, path, info):
        if l.w.refs_changed != changed[0]:
            changed[0] = l.w.refs_changed
            see_refs()

    images = []
    def check(img, where):
        for p in before:
            r = Repo(img, p)
            try:
                refs = r.refs()
            except Bad as ex:
                raise Violation('bad-ref', str(ex))
            see_refs()
            for n in set(vals[p]) | set(refs):
                v = refs.get(n)
                if v is None:
                    if n in before[p] and n not in gone(p):
                        raise Violation('ref-lost', f'{dec(n)} is gone')
                elif v not in vals[p].get(n, ()):
                    raise Violation('ref-garbage', f'{dec(n)} is {v.hex()}')
            must_complete(r, 'after the crash')
        st = repo_state(img, dest)
        if st != state0:
            rec.state(st)
        if crash.pin is not None or subrng(plan['tseed'], 'keep', crash.k).random() < .04 and len(keep) < 3:
            keep.append((img, where, crash.k))
    def gone(p):
        # refs this run has been seen to delete
        cur = last.get(p, before[p])
        return [n for n in before[p] if n not in cur]
    crash = Crashes(l, host, sampler(plan['tseed'], plan['prob']), check, plan.get('trial'), rec, 'during')
    l.w.observers += [watch, crash]
    r = l.do(plan['target'])
    l.w.observers.clear()
    crash.at('after the target')
    rec.world(l.w)
    rec.probe('target-ok' if r.rc == 0 else 'target-refused')
    after = Repo(host.fs, dest).refs()
    crash.check()
    must_complete(Repo(host.fs, dest), 'after the target')
    for img, where, k in keep:
        rec.probe('recovered')
        try:
            recover(plan, l, host, img, dest, rec, k)
        except Violation as ex:
            ex.msg = f'crash {where}, then: {ex.msg}'
            if not ex.pin:
                ex.pin = {}
            raise


def repo_state(fs, path):
    import hashlib
    h = hashlib.sha1()
    for p, i in fs.tree(path):
        h.update(p + b'\0%o' % i.mode)
        if i.data is not None:
            h.update(hashlib.sha1(i.data).digest())
    return h.digest()


def recover(plan, l0, host, img, dest, rec, k):
    """bup must be able to go on with what survived."""
    cfg = dict(plan['cfg'], srv=False, seed=plan['tseed'] ^ k)
    epoch = l0.w.epoch + l0.w.now + 10 * SEC
    cfg['epoch'] = epoch
    l = Lab(cfg, fs=img)
    d = dec(dest)
    r = Repo(img, dest)
    h0 = {n: r.history(o) for n, o in r.branches().items()}
    rng = subrng(plan['tseed'], 'rec', k)
    img.put(SRC + b'/recovery', b'after the crash')
    steps = [['-d', d, 'index', '/src'], ['-d', d, 'save', '-n', 'rec', '/src']]
    if plan['kind'] in ('gc', 'prune'):
        # what bup asks for (gc's warning): finish the collection before adding data
        steps.insert(0, ['-d', d, 'gc', '--unsafe'])
    if rng.random() < .5:
        steps.append(['-d', d, 'gc', '--unsafe', '--threshold', '0'])
    if rng.random() < .3:
        steps.append(['-d', d, 'midx', '-f'])
    if rng.random() < .3:
        steps.append(['-d', d, 'bloom', '-f'])
    for b in sorted(h0):
        steps.append(['-d', d, 'restore', '-C', '/tmp/out-' + dec(b), '/' + dec(b) + '/latest/.'])
    for s in steps:
        x = l.bup(*s)
        if x.rc != 0 and not s[-1].startswith(('/sp', '/new')):
            raise Violation('recovery', f'{s} exited {x.rc}: {x.err[-600:].decode("utf-8", "replace")}')
        must_complete(Repo(img, dest), f'after {s}')
    r = Repo(img, dest)
    for n, o in r.branches().items():
        if n in h0 and r.history(o) != h0[n]:
            raise Violation('recovery-lost', f'history of {dec(n)} changed')
    rec.world(l.w)
    l.close()
