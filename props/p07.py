"""Garbage collection never loses a reachable object."""

from .common import *
from .p02 import history
from .p04 import Stage, check_content, bad_packs
from .p04 import ERRS

ID = 'P07'
RULE = ('A plan is a generated history (saves, splits, tags, several branches, removals, packs copied in from another repository '
        'so that packs duplicate or overlap each other, possibly a missing pack), and a garbage collection at a sampled '
        'threshold. It runs without faults; then with crash images before sampled system calls (kill, power loss), and with I/O errors, '
        'full disks, interrupts and dying git processes. After each: every object that was reachable and present is present with its '
        'content, refs are unchanged, and the collection can be run again (with the same judgement) and a new save is complete. '
        'Distinct non-trivial: different states of the pack directory after the collection or in the images.')
ASSUMPTIONS = ['one collection at a time and no writers during it (as its documentation requires)',
               'after an interrupted collection, gc is run again before data is added (as its warning requires)']
SHRINK = ['pre', 'pre.*.1', 'del']
PROBES = ['rewrote', 'deleted-pack', 'duplicates', 'missing-pack', 'ignore-missing', 'gc-failed', 'recovered', 'images', 'nothing-live',
          'prune-gc', 'missing-tree']
TRIALS = 8

def gc_args(rng):
    a = ['gc', '--unsafe']
    a += rng.choice(([], ['--threshold', '0'], ['--threshold', '0'], ['--threshold', '50'], ['--threshold', '100']))
    a += rng.choice(([], [], ['-v'], ['-vv'], ['-0'], ['-9']))
    return a

def plan(rng, tier, i):
    cfg = base_cfg(rng)
    g = treegen(rng, rich=rng.random() < .2, big=.1, maxsize=60000)
    pre, branches, tags = history(rng, cfg, rng.randint(1, 7), g)
    dups = rng.random() < .5
    if dups:
        pre.append(B('-d', '/r2', 'init'))
        pre.append(['config', '/r2', repo_config(rng)])
        for _ in range(rng.randint(1, 2)):
            pre.append(B('-d', '/r2', 'index', '/src'))
            pre.append(B('-d', '/r2', 'save', '-n', rng.choice(('main', 'q')), '/src'))
            pre.append(['fs', g.edits(rng.randint(1, 4))])
        pre.append(['copypacks', '/r2', '/r'])
        if rng.random() < .5:
            pre.append(B('index', '/src'))
            pre.append(B('save', '-n', 'main', '/src'))
        if rng.random() < .3:
            pre.append(B('midx', '-a'))
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        x = rng.random()
        if x < .45:
            pre.append(B('rm', '--unsafe', '/main/@save:main:%d' % rng.randrange(4), rc=['any']))
        elif x < .8:
            pre.append(B('rm', '--unsafe', '/' + rng.choice(branches), rc=['any']))
        elif tags:
            pre.append(B('tag', '-f', '-d', rng.choice(tags)))
        else:
            pre.append(B('gc', '--unsafe', '--threshold', '90'))
    t = gc_args(rng)
    missing = rng.random() < .18
    if missing:
        pre.append(['rmpack', rng.randrange(100)])
        if rng.random() < .6:
            t.append('--ignore-missing')
    elif rng.random() < .12:
        t = ['prune-older', '--unsafe', '--gc', *rng.choice((['--keep-all-for', '1s'], ['--keep-dailies-for', '50d'],
                                                              ['--keep-monthlies-for', 'forever']))]
    return {'cfg': cfg, 'kind': 'gc', 'pre': pre, 'target': B(*t), 'missing': missing, 'dups': dups,
            'prob': rng.choice((.1, .3, .6)), 'tseed': rng.randrange(1 << 30),
            'mode': rng.choice(('crash', 'fault', 'fault')) if not missing else 'none',
            'after': g.edits(3)}

def sample(p):
    return {'target': p['target'], 'pre': p['pre'][:8]}

def live(r):
    """{oid} reachable from all refs, and what of it is missing."""
    seen, miss = set(), set()
    for o in r.refs().values():
        a, b = r.closure(o)
        seen |= a
        miss |= b
    return seen, miss

def packs(fs):
    d = fs.lookup(b'/r/objects/pack')
    return tuple(sorted((n, len(i.data or b'')) for n, i in d.entries.items() if n.endswith((b'.pack', b'.idx'))))

def judge(fs, want, refs, what, allowed=None, packs_ok=True):
    r = Repo(fs)
    try:
        now = r.refs()
    except Bad as ex:
        raise Violation('bad-ref', f'{what}: {ex}')
    if now != refs and (allowed is None or now not in allowed):
        raise Violation('ref-changed', f'{what}: refs {refs_str(refs)} became {refs_str(now)}')
    lost = [o for o in want if o not in r.objs]
    if allowed is not None and lost:
        keep = live(r)[1]
        lost = [o for o in lost if o in keep]
    if lost:
        raise Violation('lost', f'{what}: {len(lost)} reachable objects are gone, e.g. {lost[0].hex()}')
    if packs_ok:
        bp = bad_packs(r)
        if bp:
            raise Violation('bad-pack', f'{what}: ' + '; '.join(bp[:3]))
    return r

def execute(plan, rec):
    st = Stage(plan, rec)
    r0 = Repo(st.fs['host'])
    refs = r0.refs()
    want, miss = live(r0)
    if miss:
        rec.probe('missing-pack')
    elif plan['missing']:
        rec.probe('missing-dead-pack')
    if not refs:
        rec.probe('nothing-live')
    if any(len(v) > 1 for v in r0.where.values()):
        rec.probe('duplicates')
    p0 = packs(st.fs['host'])
    # without faults
    prune = plan['target'][1][0] == 'prune-older'
    l = st.lab(plan['tseed'])
    l.host.fs.sync_all()
    refs_seen = [refs]
    seen = {}
    def count(p, call, path, info):
        if call in ERRS and (path is None or path.startswith((b'/r', b'/tmp'))):
            k = (p.name().split()[0] if p.prog != b'git' else p.name(), call)
            seen[k] = seen.get(k, 0) + 1
    changed = [l.w.refs_changed]
    def watch(p, call, path, info):
        if l.w.refs_changed != changed[0]:
            changed[0] = l.w.refs_changed
            refs_seen.append(bare_refs(l.host.fs))
    images = []
    def img_check(img, where):
        if l.w.refs_changed != changed[0]:
            changed[0] = l.w.refs_changed
            refs_seen.append(bare_refs(l.host.fs))
        rec.probe('images')
        judge(img, want, refs, 'in the image', allowed=refs_seen if prune else None, packs_ok=False)
        rec.state(packs(img))
        if crash.pin is not None or (len(images) < 3 and subrng(plan['tseed'], 'keep', crash.k).random() < .1):
            images.append((img, where))
    crash = None
    if plan['mode'] == 'crash':
        crash = Crashes(l, l.host, sampler(plan['tseed'], plan['prob']), img_check, plan.get('trial'), rec, 'gc')
        l.w.observers += [watch, crash]
    l.w.observers.append(count)
    x = l.do(plan['target'])
    l.w.observers.clear()
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    if crash:
        crash.check()
    done(l, rec, x, plan, want, miss, refs, p0, 'after gc', prune)
    rec.world(l.w)
    now = l.w.epoch + l.w.now
    l.close()
    for img, where in images:
        again(plan, st, rec, img, want, refs_seen if prune else [refs], now, f'crash {where}; gc again')
    if plan['mode'] != 'fault':
        return
    if plan.get('fault'):
        fault(plan, st, rec, plan['fault'], want, refs, p0, prune)
        return
    keys = sorted(seen)
    rng = subrng(plan['tseed'], 'faults')
    for n in range(TRIALS):
        k = rng.choice(keys)
        spec = {'prog': k[0], 'calls': [k[1]], 'nth': rng.randrange(seen[k]), 'seed': rng.randrange(1 << 30)}
        x = rng.random()
        if x < .2:
            spec['action'] = 'int' if k[0] == 'bup' else 'kill'
        elif k[1] in ('read', 'write') and x < .35:
            spec.update(action='short', persist=rng.random() < .3)
        elif ERRS[k[1]]:
            spec.update(action='err', errno=rng.choice(ERRS[k[1]]), persist=rng.random() < .4)
            if spec['errno'] in ('ENOSPC', 'EDQUOT') and rng.random() < .7:
                spec['calls'] = ['write', 'creat', 'mkdir', 'truncate']
                spec['persist'] = True
        else:
            continue
        try:
            fault(plan, st, rec, spec, want, refs, p0, prune)
        except Violation as ex:
            ex.pin = {'fault': spec}
            raise

def bare_refs(fs):
    r = Repo.__new__(Repo)
    r.fs, r.path = fs, REPO
    return r.refs()

def done(l, rec, x, plan, want, miss, refs, p0, what, prune=False):
    """The collection has finished without any fault."""
    host = l.host
    if prune:
        refs = bare_refs(host.fs)
        want = live(Repo(host.fs))[0]
    r = judge(host.fs, want, refs, what)
    rec.state(packs(host.fs))
    if packs(host.fs) != p0:
        rec.probe('deleted-pack' if len(packs(host.fs)) < len(p0) else 'rewrote')
    ign = '--ignore-missing' in plan['target'][1]
    if ign:
        rec.probe('ignore-missing')
    if miss and x.rc:
        rec.probe('refused-missing')
    if miss and not ign and not prune:
        trees = sorted(b for o in want for b, t in r.links(o) if t in (b'tree', b'commit') and b in miss)
        if trees:
            rec.probe('missing-tree')
            if not x.rc:
                raise Violation('false-success', f'{what}: gc exited 0, but {trees[0].hex()} is missing')
            if packs(host.fs) != p0:
                raise Violation('collected-blindly', f'{what}: gc changed packs although {trees[0].hex()} is missing')
    if not miss and x.rc:
        raise Violation('command-failed', f'{what}: gc exited {x.rc}: {x.err[-500:].decode("utf-8", "replace")}')
    if not miss:
        must_complete(r, what)
    return r

def again(plan, st, rec, img, want, refs, now, what):
    """Collect again after a failure, then save."""
    rec.probe('recovered')
    l = Lab(dict(st.cfg, epoch=now + 10 * SEC, seed=plan['tseed'] ^ 5), fs=img)
    try:
        cur = bare_refs(img)
        if cur != refs[0]: # (prune-older got as far as changing refs)
            want = live(Repo(img))[0]
        x = l.bup('gc', '--unsafe', *(['--threshold', '0'] if plan['tseed'] % 2 else []))
        r = judge(img, want, cur if cur in refs else refs[0], what)
        if x.rc:
            raise Violation('gc-again', f'exited {x.rc}: {x.err[-500:].decode("utf-8", "replace")}')
        must_complete(r, what)
        l.do(['fs', plan['after']])
        l.sleep(2 * SEC)
        for a in (['index', '/src'], ['save', '-n', 'after', '/src']):
            y = l.bup(*a)
            if y.rc:
                raise Violation('next-failed', f'{what}: {a} exited {y.rc}: {y.err[-500:].decode("utf-8", "replace")}')
        r = Repo(img)
        must_complete(r, what + ', then save')
        check_content(r, r.refs()[b'refs/heads/after'], l.host.fs, SRC, at='src')
    except Violation as ex:
        if what not in ex.msg:
            ex.msg = f'{what}: {ex.msg}'
        raise
    rec.world(l.w)
    l.close()

def fault(plan, st, rec, spec, want, refs, p0, prune):
    rec.trials += 1
    l = st.lab(spec['seed'])
    class F(Fault):
        def matches(self, w, p, call, path):
            return super().matches(w, p, call, path) and (path is None or path.startswith((b'/r', b'/tmp')))
    f = F(spec)
    l.w.faults.append(f)
    x = l.do(plan['target'])
    l.w.faults.clear()
    what = f'{spec["action"]} {spec.get("errno", "")}{" (persistent)" if spec.get("persist") else ""} at {f.where} (exit {x.rc})'
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    if x.rc:
        rec.probe('gc-failed')
    ok = [refs]
    if prune:
        rec.probe('prune-gc')
        ok.append(bare_refs(l.host.fs))
    judge(l.host.fs, want, refs, what, allowed=ok if prune else None)
    rec.state(packs(l.host.fs))
    img = l.host.fs
    now = l.w.epoch + l.w.now
    rec.world(l.w)
    l.close()
    again(plan, st, rec, img, want, [refs, bare_refs(img)] if prune else [refs], now, what + '; gc again')
