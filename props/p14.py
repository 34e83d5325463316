"""fsck finds damage, repairs what recovery data covers, and never publishes bad recovery data."""


from .common import *
from .p04 import ERRS
from sim import programs
from sim.oracle import parse_pack

ID = 'P14'
RULE = ('A plan is a history that makes several packs, then steps: damage to packs, indexes and recovery files (flipped, zeroed, removed, added and truncated bytes, empty and '
        'deleted files, an index of another pack), restoring them, more saves, and fsck to generate, verify or repair (in parallel or not, quick, by name, '
        'without par2). Each verdict is compared with that of a reference over the original bytes; repaired packs must have these bytes. '
        'One step may run with a fault at a sampled system call (I/O error, full disk, short transfer, a killed bup or par2, power loss, link not supported): exit status 0 or 1 '
        'is then still only allowed when everything is in order, undamaged packs are unchanged, and recovery files that will be taken to be good must be good. '
        'Distinct non-trivial: different (mode, options, damage, fault, verdict) combinations.')
ASSUMPTIONS = ['par2 and git are stand-ins; par2 finds blocks only at their original places', 'par2 is not claimed to find damage to recovery files while the pack is intact',
               'a pack that is missing altogether is only mentioned (documented)', 'whether an interrupted repair can be repeated is up to par2']
SHRINK = ['steps', 'pre.*.1', 'pre']
PROBES = ['verify-ok', 'verify-damaged', 'repaired', 'unrepairable', 'generated', 'parallel', 'quick', 'index-only', 'stale-recovery', 'fault', 'failed', 'power-loss',
          'bad-recovery-files', 'several-damaged', 'no-par2', 'copied']
LEVEL = 'seeded search against a reference verdict'
REC = b'.vol000+200.par2'

def damage(rng):
    k = rng.choice(('flip', 'flip', 'flip', 'zero', 'junk', 'trunc', 'cut', 'append', 'insert', 'empty', 'rm', 'swap'))
    t = rng.choice(('.pack',) * 5 + ('.idx',) * 3 + ('.par2', '.vol000+200.par2'))
    if t == '.pack' and k in ('rm', 'swap'):
        k = 'zero'
    if t != '.idx' and k == 'swap':
        k = 'flip'
    if t.endswith('.par2'):
        k = rng.choice(('empty', 'rm', 'flip', 'trunc'))
    return ['damage', t, rng.randrange(100), k, rng.random() if rng.random() < .8 else rng.choice((0, .00001, .9999, 1)), rng.choice((1, 1, 2, 20, 300, 5000))]

def fsck(rng, mode=None):
    mode = mode or rng.choice(('verify', 'verify', 'generate', 'repair', 'repair'))
    o = []
    if rng.random() < .4:
        o.append(rng.choice(('-j1', '-j2', '-j2', '-j3', '-j8')))
    if mode != 'generate' and rng.random() < .25:
        o.append('--quick')
    if mode == 'verify' and rng.random() < .15:
        o.append('--disable-par2')
    if rng.random() < .3:
        o.append(rng.choice(('-v', '-vv', '-vvv')))
    return ['fsck', mode, o, rng.random() if rng.random() < .25 else None]

def plan(rng, tier, i):
    cfg = base_cfg(rng)
    cfg['config'] = split_config(rng) + '[pack]\n\tpackSizeLimit = %d\n' % rng.choice((5000, 15000, 40000, 1000000))
    cfg['preempt'] = rng.choice((0, .05, .3))
    g = treegen(rng, rich=False, big=.1, maxsize=60000)
    def save():
        return [['fs', g.edits(rng.randint(3, 9))], B('index', '/src'), B('save', '-n', 'main', '/src'), ['sleep', 3 * SEC]]
    pre = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        pre += save()
    steps = []
    if rng.random() < .85:
        steps.append(fsck(rng, 'generate')[:3] + [rng.random() if rng.random() < .1 else None])
    for _ in range(rng.randint(2, 6)):
        x = rng.random()
        if x < .55:
            for _ in range(rng.choice((1, 1, 2, 4))):
                steps.append(damage(rng))
            if rng.random() < .6:
                steps.append(fsck(rng, 'verify'))
            steps.append(fsck(rng, 'repair'))
            steps.append(fsck(rng))
        elif x < .7:
            steps.append(['restore'])
            steps.append(fsck(rng))
        elif x < .8:
            steps.append(['save', save()])
        else:
            steps.append(fsck(rng))
    p = {'cfg': cfg, 'pre': pre, 'steps': steps, 'tseed': rng.randrange(1 << 30), 'repo': rng.choice(('/r', '/r', '/r', '/r[1]*x', '/q r'))}
    if rng.random() < .65:
        p['faulty'] = rng.choice(('generate', 'generate', None))
    if rng.random() < .04:
        p['nopar2'] = True
    return p

def sample(p):
    return {k: p.get(k) for k in ('steps', 'faulty', 'repo')}

class St:
    """What is known of the packs: the original bytes."""
    def __init__(self, top):
        self.dir = top + b'/objects/pack'
        self.good = {} # stem -> (pack, idx)

    def files(self, fs):
        d = fs.lookup(self.dir)
        return {n: i for n, i in d.entries.items() if i.data is not None}

    def learn(self, fs):
        f = self.files(fs)
        for n, i in f.items():
            if n.endswith(b'.pack') and n[:-5] not in self.good and n[:-5] + b'.idx' in f:
                self.good[n[:-5]] = bytes(i.data), bytes(f[n[:-5] + b'.idx'].data)

    def verdict(self, fs, s, quick):
        """(pack is intact, index is)."""
        f = self.files(fs)
        p = f.get(s + b'.pack')
        x = f.get(s + b'.idx')
        pb = bytes(p.data) if p is not None else None
        xb = bytes(x.data) if x is not None else None
        pok = pb == self.good[s][0]
        if quick: # only the checksum is claimed
            xok = xb is not None and len(xb) > 40 and programs.hashlib.sha1(xb[:-20]).digest() == xb[-20:]
        else:
            xok = xb is not None and (xb == self.good[s][1] or not parse_pack(self.good[s][0], xb)[1])
        return pok, xok

    def recovery(self, fs, s):
        """None, 'bad' (noticeably), or what the recovery files are for: (md5, capacity, sums, pristine files?)"""
        f = self.files(fs)
        both = [f.get(s + b'.par2'), f.get(s + REC)]
        if both == [None, None]:
            return None
        if any(x is None or not x.data for x in both):
            return 'bad'
        main = sums = None
        n = set()
        for x in both:
            for k, b in programs._packets(bytes(x.data)):
                if k == b'MAIN':
                    main = json.loads(b)
                elif k == b'SUMS':
                    sums = b
                elif k == b'RECV':
                    n.add(bytes(b))
        first = programs._packets(bytes(both[0].data))
        whole = [k for k, b in first] == [b'MAIN', b'SUMS'] and main and sums and len(n) == 200
        return main, len(n), sums, whole

def bad_blocks(main, sums, data):
    if len(data) == main['size'] and programs.hashlib.md5(data).hexdigest() == main['md5']:
        return 0
    bs = main['bs']
    want = [sums[i:i + 16] for i in range(0, len(sums), 16)]
    ok = sum(programs.hashlib.md5(data[k * bs:(k + 1) * bs]).digest() == m for k, m in enumerate(want))
    return max(len(want) - ok, 0 if len(data) != main['size'] else 1)

def apply_damage(st, fs, d, rec):
    _, suffix, k, kind, pos, size = d
    f = st.files(fs)
    l = sorted(n for n in f if n.endswith(suffix.encode()) and (suffix != '.par2' or b'.vol' not in n))
    if not l:
        return
    n = l[k % len(l)]
    i = f[n]
    b = bytearray(i.data)
    at = min(int(pos * len(b)), max(len(b) - 1, 0))
    r = subrng(k, pos, size)
    if kind == 'flip':
        for _ in range(min(size, 20)):
            if b:
                b[at] ^= 1 << r.randrange(8)
                at = r.randrange(len(b))
    elif kind == 'zero':
        b[at:at + size] = bytes(len(b[at:at + size]))
    elif kind == 'junk':
        b[at:at + size] = r.randbytes(len(b[at:at + size]))
    elif kind == 'trunc':
        del b[at:]
    elif kind == 'cut':
        del b[at:at + size]
    elif kind == 'append':
        b += r.randbytes(size)
    elif kind == 'insert':
        b[at:at] = r.randbytes(min(size, 50))
    elif kind == 'empty':
        b.clear()
    elif kind == 'swap':
        o = [x for x in l if x != n]
        if not o:
            return
        b = bytearray(f[o[size % len(o)]].data)
    if kind == 'rm':
        fs.unlink(fs.lookup(st.dir), n, i)
    elif bytes(b) != bytes(i.data):
        fs.put(st.dir + b'/' + n, bytes(b))
    rec.fault('damage')

def execute(plan, rec):
    cfg = dict(plan['cfg'], trace=plan.get('trace'))
    top = enc(plan['repo'])
    l = Lab(cfg, init=False)
    for h in l.w.hosts.values():
        h.env[b'BUP_DIR'] = top
    lab.ok(l.bup('init'))
    l.add_config(l.host, top, cfg['config'])
    st = St(top)
    try:
        run_pre(l, plan['pre'])
    except SetupFailed:
        if plan['pre'] and plan['pre'][0][0] == 'fs':
            raise
        return # (a minimised case without anything to save)
    fs = l.host.fs
    st.learn(fs)
    fs.sync_all()
    for n, s in enumerate(plan['steps']):
        if s[0] == 'damage':
            apply_damage(st, fs, s, rec)
            fs.sync_all()
        elif s[0] == 'restore': # from a backup of the repository
            for k, (p, x) in st.good.items():
                fs.put(st.dir + b'/' + k + b'.pack', p)
                fs.put(st.dir + b'/' + k + b'.idx', x)
            fs.sync_all()
        elif s[0] == 'save':
            if any(st.verdict(fs, k, False) != (True, True) for k in st.good):
                continue # (saving to a damaged repository is P19's business)
            try:
                run_pre(l, s[1])
            except SetupFailed:
                continue
            st.learn(fs)
            fs.sync_all()
        else:
            check(plan, rec, l, st, s, n)
            fs.sync_all()
    rec.world(l.w)
    l.close()

def argv(s, st, fs, packs):
    a = ['fsck', *{'verify': [], 'generate': ['-g'], 'repair': ['-r']}[s[1]], *s[2]]
    if s[3] is not None:
        packs = sorted(packs)
        packs = [p for k, p in enumerate(packs) if subrng(str(s[3]), k).random() < .5] or packs[:1]
        a += [dec(st.dir + b'/' + p + b'.pack') for p in packs]
    return ['bup', a], packs

def check(plan, rec, l, st, s, n):
    fs = l.host.fs
    pin = plan.get('fault')
    if plan.get('faulty', 0) in (None, s[1]) and (pin is None or pin['step'] == n):
        # variants of this step with a fault, each from the same state
        if pin is not None:
            specs = [pin]
        else:
            rng = subrng(plan['tseed'], 'faults', n)
            seen = {}
            run(plan, rec, l, st, s, n, fs.clone(), None, seen)
            specs = []
            for _ in range(4):
                sp = pick(rng, seen, s)
                if sp:
                    specs.append(dict(sp, step=n, seed=rng.randrange(1 << 30)))
        for sp in specs:
            try:
                run(plan, rec, l, st, s, n, fs.clone(), sp, None)
            except Violation as ex:
                ex.pin = {'fault': sp}
                raise
    run(plan, rec, l, st, s, n, fs, None, None)

def pick(rng, seen, s):
    keys = sorted(seen)
    if not keys:
        return None
    x = rng.random()
    if x < .25 and s[1] == 'generate':
        return {'power': rng.randrange(sum(seen.values())), 'mode': rng.choice(('none', 'random', 'random', 'all', 'kill'))}
    if x < .32 and s[1] == 'generate':
        return {'prog': 'bup', 'calls': ['link'], 'nth': 0, 'persist': True, 'action': 'err', 'errno': rng.choice(('EPERM', 'EXDEV', 'EMLINK', 'EOPNOTSUPP'))}
    k = rng.choice(keys)
    sp = {'prog': k[0], 'calls': [k[1]], 'nth': rng.randrange(seen[k])}
    x = rng.random()
    if x < .3:
        sp['action'] = 'kill'
    elif k[1] in ('read', 'write') and x < .4:
        sp.update(action='short', persist=rng.random() < .3)
    elif ERRS[k[1]]:
        sp.update(action='err', errno=rng.choice(ERRS[k[1]]), persist=rng.random() < .4)
    else:
        return None
    return sp

class In(Fault):
    top = b''
    def matches(self, w, p, call, path):
        return super().matches(w, p, call, path) and (path is not None and path.startswith((self.top, b'/tmp', b'pack-')))

def run(plan, rec, l0, st, s, n, fs, spec, seen):
    """One fsck, on fs."""
    if fs is l0.host.fs:
        l = l0
    else:
        l = Lab(dict(plan['cfg'], epoch=l0.w.epoch + l0.w.now + SEC, seed=(spec or plan)['seed' if spec else 'tseed'], trace=None if spec is None else plan.get('trace')), fs=fs)
        l.host.env[b'BUP_DIR'] = enc(plan['repo'])
        l.w.par2_store = dict(l0.w.par2_store)
        rec.trials += 1
    G.world = l.w
    if plan.get('nopar2'):
        l.w.programs.pop(b'par2', None)
    dis = '--disable-par2' in s[2] or bool(plan.get('nopar2'))
    quick = '--quick' in s[2]
    mode = s[1]
    f = st.files(fs)
    packs = sorted(k for k in st.good if k + b'.pack' in f)
    op, target = argv(s, st, fs, packs)
    before = {k: st.verdict(fs, k, quick) for k in packs}
    strict = {k: st.verdict(fs, k, False) for k in packs}
    rv = {k: st.recovery(fs, k) for k in packs}
    data = {k: bytes(f[k + b'.pack'].data) for k in packs}
    idx = {k: bytes(f[k + b'.idx'].data) if k + b'.idx' in f else None for k in packs}
    what = f'step {n} ({" ".join(op[1])})'
    flt = None
    images = []
    if seen is not None:
        def count(p, call, path, info):
            if call in ERRS and path is not None and path.startswith((enc(plan['repo']), b'/tmp', b'pack-')):
                k = (p.name().split()[0] if p.prog != b'git' else p.name(), call)
                seen[k] = seen.get(k, 0) + 1
        l.w.observers.append(count)
    elif spec is not None and 'power' in spec:
        c = [0]
        def power(p, call, path, info):
            if c[0] == spec['power']:
                images.append((crash_image(l, l.host, spec['mode'], spec['seed'], c[0]), f'{p.name()}: before {call} {path!r}'))
                rec.fault('process-kill' if spec['mode'] == 'kill' else 'power-loss-' + spec['mode'])
            if call in ERRS:
                c[0] += 1
        l.w.observers.append(power)
    elif spec is not None:
        flt = In(spec)
        flt.top = enc(plan['repo'])
        l.w.faults.append(flt)
    try:
        r = l.do(op)
    except SimHang as ex:
        raise Violation('hang', f'{what}: {ex}')
    l.w.observers.clear()
    l.w.faults.clear()
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    for img, where in images:
        rec.probe('power-loss')
        recovery_good(st, img, packs, data, rv, f'{what}: image ({spec["mode"]}) {where}')
    if images and spec['mode'] == 'none':
        pass
    failed = flt is not None and flt.fired
    if failed:
        rec.probe('fault')
        what += f' with {spec["action"]} {spec.get("errno", "")}{" (persistent)" if spec.get("persist") else ""} at {flt.where}'
    what += f': exit {r.rc}'
    if any('-j' in o for o in s[2]):
        rec.probe('parallel')
    if quick:
        rec.probe('quick')
    after = {k: st.verdict(fs, k, False) for k in packs}
    qafter = {k: st.verdict(fs, k, quick) for k in packs}
    # nothing intact is changed
    f = st.files(fs)
    for k in packs:
        b = f.get(k + b'.pack')
        b = None if b is None else bytes(b.data)
        if strict[k][0] and not after[k][0]:
            raise Violation('changed', f'{what}: {dec(k)}.pack was intact, but no more')
        if mode != 'repair' and b != data[k]:
            raise Violation('changed', f'{what}: {dec(k)}.pack was changed')
        x = f.get(k + b'.idx')
        x = None if x is None else bytes(x.data)
        if x != idx[k] and (mode != 'repair' or strict[k][1] and not (failed and not strict[k][0])):
            if strict[k][1] and after[k][1]:
                pass # (an equivalent one)
            else:
                raise Violation('changed', f'{what}: {dec(k)}.idx was changed')
    recovery_good(st, fs, packs, data, rv, what)
    rec.state(mode, tuple(s[2]), s[3] is not None, r.rc, spec.get('action', 'power') if spec else None, flt.where.split(' #')[0] if failed else None,
              tuple(sorted({(before[k], type(rv[k]).__name__) for k in target})))
    status_bad = any(rv[k] == 'bad' for k in target)
    if status_bad:
        rec.probe('bad-recovery-files')
    bad = [k for k in target if before[k] != (True, True)]
    if len(bad) > 1:
        rec.probe('several-damaged')
    if any(x == (True, False) for x in before.values()):
        rec.probe('index-only')
    if plan.get('nopar2'):
        rec.probe('no-par2')
        if mode != 'verify':
            if r.rc in (0, 1):
                raise Violation('no-par2', f'{what}, but par2 is not there')
            return
    def unsure(k):
        """Recovery files that were altered, but not so that bup looks at it."""
        return isinstance(rv[k], tuple) and (not rv[k][3] or rv[k][0]['md5'] != programs.hashlib.md5(data[k]).hexdigest())
    if mode == 'verify':
        if r.rc == 0:
            if bad:
                raise Violation('undetected', f'{what}, but {dec(bad[0])} has (pack, index) intact: {before[bad[0]]}')
            if status_bad:
                raise Violation('undetected', f'{what}, but recovery files are missing or empty')
            rec.probe('verify-ok')
        elif not failed:
            if r.rc < 2:
                raise Violation('status', f'{what}: not a documented status')
            if not bad and not status_bad and (dis or not any(unsure(k) for k in target)):
                raise Violation('false-alarm', f'{what}, but everything is in order: {r.err[-400:].decode("utf-8", "replace")}')
            rec.probe('verify-damaged')
        elif r.rc == 1:
            raise Violation('status', f'{what}: not a documented status')
    elif mode == 'generate':
        have = {k: st.recovery(fs, k) for k in target}
        if r.rc == 0:
            for k in target:
                if not isinstance(have[k], tuple) and data[k]:
                    raise Violation('not-generated', f'{what}, but there is no recovery data for {dec(k)}')
            rec.probe('generated')
            if failed and 'link' in spec['calls'] and spec['action'] == 'err':
                rec.probe('copied')
        elif not failed and not status_bad and all(data[k] for k in target):
            raise Violation('failed', f'{what}: {r.err[-400:].decode("utf-8", "replace")}')
        if failed and r.rc:
            rec.probe('failed')
    else:
        now_bad = [k for k in target if qafter[k] != (True, True)]
        if r.rc == 0:
            if bad:
                raise Violation('status', f'{what}, but {dec(bad[0])} was damaged')
        if r.rc in (0, 1):
            if now_bad:
                raise Violation('not-repaired', f'{what}, but {dec(now_bad[0])} has (pack, index) intact: {qafter[now_bad[0]]}')
            if status_bad:
                raise Violation('undetected', f'{what}, but recovery files are missing or empty')
        if r.rc == 1 and not failed:
            if not bad:
                raise Violation('status', f'{what}, but nothing was damaged')
        if r.rc == 1:
            rec.probe('repaired')
        if r.rc not in (0, 1):
            rec.probe('unrepairable')
            if r.rc < 0 and not failed:
                raise Violation('status', f'{what}: killed')
        if not failed:
            can = []
            for k in target:
                if before[k] == (True, True):
                    can.append(True)
                    continue
                x = rv[k]
                if isinstance(x, tuple) and x[0] and x[0]['md5'] != programs.hashlib.md5(st.good[k][0]).hexdigest():
                    rec.probe('stale-recovery')
                ok = isinstance(x, tuple) and x[0] is not None and x[2] is not None and x[0]['md5'] == programs.hashlib.md5(st.good[k][0]).hexdigest() \
                    and bad_blocks(x[0], x[2], data[k]) <= x[1]
                can.append(ok)
                if ok and qafter[k] != (True, True):
                    raise Violation('not-repaired', f'{what}: {dec(k)} is within the capacity of its recovery data, but was not repaired: {r.err[-600:].decode("utf-8", "replace")}')
            if all(can) and not status_bad and r.rc != (1 if bad else 0):
                raise Violation('status', f'{what}: all could be repaired: {r.err[-400:].decode("utf-8", "replace")}')
    if l is not l0:
        rec.world(l.w)
        l.close()

def recovery_good(st, fs, packs, data, rv, what):
    """New recovery files that look complete must be."""
    for k in packs:
        if isinstance(rv[k], tuple):
            continue
        x = st.recovery(fs, k)
        if isinstance(x, tuple):
            if not x[3]:
                raise Violation('bad-recovery', f'{what}: the new recovery files of {dec(k)} are not complete')
            if x[0]['md5'] != programs.hashlib.md5(data[k]).hexdigest():
                raise Violation('bad-recovery', f'{what}: the new recovery files of {dec(k)} are for something else')
