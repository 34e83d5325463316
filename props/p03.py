"""An interrupted index or save can simply be re-run."""

from .common import *

ID = 'P03'
RULE = ('A plan is a generated source tree and history of edits, index and save runs, then an index, save or restricted '
        'index run that is interrupted: crash images (processes killed, or power loss with a random admissible '
        'surviving state) are taken before sampled system calls. On a sample of the images the tree is edited again, '
        'optionally a second run is interrupted, and index and save must succeed; the save is compared, content and '
        'metadata, with the tree. Distinct non-trivial: different surviving states of the client-side databases and '
        'repository at the interruption.')
ASSUMPTIONS = ['one in-place update of an index entry reaches the disk completely or not at all',
               'an fsynced file keeps its content, an fsynced directory its entries']
SHRINK = ['pre', 'pre.*.1', 'edits', 'after']
PROBES = ['target-index', 'target-save', 'interrupted-twice', 'hardlinks']
SAMPLE_PROB = .1

def plan(rng, tier, i):
    kind = ('index', 'save', 'index', 'both')[i % 4]
    cfg = base_cfg(rng)
    cfg['personality'] = rng.choice(('journal', 'posix'))
    g = treegen(rng, rich=rng.random() < .7, big=.08, maxsize=40000)
    pre = []
    for n in range(rng.choice((0, 1, 1, 1, 2, 3))):
        pre.append(['fs', g.edits(rng.randint(3, 12))])
        pre.append(['sleep', rng.choice((0, 0, 3, 1000)) * SEC])
        pre.append(B('index', '/src'))
        if rng.random() < .8:
            pre.append(B('save', '-n', 'main', '/src'))
        pre.append(['sleep', rng.choice((0, 2, 86400)) * SEC])
    pre.append(['fs', g.edits(rng.randint(3, 10))])
    pre.append(['sleep', rng.choice((0, 0, 3)) * SEC])
    if kind == 'save':
        pre.append(B('index', '/src'))
        targets = [B('save', '-n', 'main', '/src')]
    elif kind == 'index':
        targets = [B('index', '/src')]
    else:
        targets = [B('index', '/src'), B('save', '-n', 'main', '/src')]
    return {'cfg': cfg, 'kind': kind, 'pre': pre, 'targets': targets, 'sync': rng.random() < .6,
            'after': g.edits(rng.choice((0, 0, 1, 4))), 'gap': rng.choice((0, 2, 86400)),
            'twice': rng.random() < .4, 'tseed': rng.randrange(1 << 30)}

def sample(p):
    return {'targets': p['targets'], 'pre': p['pre'][:5], 'after': p['after']}

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
    run_pre(l, plan['pre'])
    for p, i in l.host.fs.tree(SRC):
        if i.data is not None and i.nlink > 1:
            rec.probe('hardlinks')
            break
    l.host.fs.sync_tree(SRC)
    if plan['sync']:
        l.host.fs.sync_all()
    rec.probe('target-' + ('save' if plan['kind'] == 'both' else plan['kind']))
    keep = []
    def check(img, where):
        rec.state(*[bytes(i.data) for p, i in img.tree(REPO) if b'bupindex' in p and i.data is not None])
        keep.append((img, where, crash.k, l.w.epoch + l.w.now))
    prob = SAMPLE_PROB
    n = [0]
    base = sampler(plan['tseed'], 1, modes=('kill', 'kill', 'random', 'random', 'none'))
    def samp(k):
        # reservoir-like: decreasing probability keeps a handful of images per plan
        r = subrng(plan['tseed'], 'pick', k)
        return base(k) if r.random() < plan.get('prob', .06) else ()
    crash = Crashes(l, l.host, samp, check, plan.get('trial'), rec, 'during')
    l.w.observers.append(crash)
    for t in plan['targets']:
        r = l.do(t)
        if r.rc:
            raise SetupFailed(t, r)
    l.w.observers.clear()
    rec.world(l.w)
    l.close()
    if len(keep) > 6:
        keep = subrng(plan['tseed'], 'keep').sample(keep, 6)
    for img, where, k, now in keep:
        try:
            rerun(plan, img, now, rec, k)
        except Violation as ex:
            ex.msg = f'interrupted {where}, then: {ex.msg}'
            t = plan.get('trial')
            rr = [x for x in base(k - 1)][0]
            ex.pin = {'trial': t or ['during', k - 1, rr[0], rr[1]]}
            raise

def again(l, what, allow=()):
    for a in (['index', '/src'], ['save', '-n', 'main', '/src']):
        x = l.bup(*a)
        if x.rc:
            raise Violation('rerun-failed', f'{what}{a} exited {x.rc}: {x.err[-700:].decode("utf-8", "replace")}')

def rerun(plan, img, now, rec, k):
    rng = subrng(plan['tseed'], 'rerun', k)
    cfg = dict(plan['cfg'], epoch=now + (plan['gap'] + 1) * SEC, seed=plan['tseed'] ^ k)
    l = Lab(cfg, fs=img)
    l.do(['fs', plan['after']])
    img.sync_tree(SRC)
    if plan['twice'] and rng.random() < .6:
        rec.probe('interrupted-twice')
        at = rng.randrange(1, 60)
        got = []
        def check2(im, where):
            if not got and crash.k > at:
                got.append(im)
        crash = Crashes(l, l.host, lambda k: [('kill' if rng.random() < .6 else 'random', rng.randrange(1 << 30))] if k >= at and not got else [],
                        check2, None, rec, 'rerun')
        l.w.observers.append(crash)
        l.bup('index', '/src')
        l.bup('save', '-n', 'main', '/src')
        l.w.observers.clear()
        now = l.w.epoch + l.w.now
        rec.world(l.w)
        l.close()
        if got:
            img = got[0]
            cfg['epoch'] = now + SEC
            cfg['seed'] += 1
            l = Lab(cfg, fs=img)
        else:
            l = Lab(dict(cfg, epoch=now + SEC), fs=l.host.fs)
    again(l, '')
    verify(l, plan, rec, 'the save after the re-run')
    # what the databases now hold is used by the next runs
    l.sleep(2 * SEC)
    l.do(['fs', [['touch', '']]])
    again(l, 'second ')
    verify(l, plan, rec, 'the save after a further run')
    rec.world(l.w)
    l.close()

def verify(l, plan, rec, what):
    r = l.repo()
    must_complete(r, what)
    ref = snapshot(l.host.fs, SRC)
    l.host.fs.remove_tree(b'/tmp/out')
    x = l.bup('restore', '-C', '/tmp/out', '/main/latest/src/.')
    if x.rc:
        raise Violation('restore-failed', f'{what}: {x.err[-600:].decode("utf-8", "replace")}')
    got = snapshot(l.host.fs, b'/tmp/out')
    d = diff_snap(ref, got, ('file system', 'save'))
    if d:
        raise Violation('wrong-save', f'{what}: ' + '; '.join(d[:4]))
