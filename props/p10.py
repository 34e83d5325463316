"""Object lookup agrees with the packs, always."""

from .common import *
from .p04 import check_content
from .p08 import exists_all

ID = 'P10'
RULE = ('A plan is a sequence of operations that add packs (save, split, get, packs copied in from another repository that repeat '
        'objects), maintain the lookup structures (midx -a, -f, bloom, bloom -f, -k, also with a small number of open files), remove things (rm, gc), run two of these '
        'at the same time under a random schedule, or die in the middle (kill, or power loss of the whole machine). After each step a new process is asked for '
        'every object that was ever stored and for absent ones, and must answer exactly what the pack indexes contain; what midx or bloom has just written must pass its own --check (a filter for every index); each successful save must be complete. '
        'Distinct non-trivial: different (pack, midx, bloom) directory states that were asked.')
ASSUMPTIONS = ['a bloom false positive is resolved by the indexes, so answers are exact', 'gc runs alone']
SHRINK = ['ops']
PROBES = ['asked', 'with-midx', 'with-bloom', 'concurrent', 'killed', 'power-loss', 'duplicates', 'gc', 'multi-midx', 'vouched-midx', 'vouched-bloom']

def maint(rng):
    return rng.choice((B('midx', '-f'), B('midx', '-a'), B('midx', '-a'), B('bloom'), B('bloom'), B('bloom', '-f'), B('bloom', '-k', '4'),
                       B('bloom', '-f', '-k', '5'), B('midx', '-f', '--max-files', '5'), B('midx', '-a', '--max-files', '6')))

def plan(rng, tier, i):
    cfg = base_cfg(rng, preempt=rng.choice((.02, .1, .3)))
    if 'packSizeLimit' not in (cfg['config'] or '') and rng.random() < .6:
        cfg['config'] = (cfg['config'] or '') + '[pack]\n\tpackSizeLimit = %d\n' % rng.choice((1000, 5000, 20000))
    g = treegen(rng, rich=False, big=.1, maxsize=60000)
    ops = [['fs', g.edits(rng.randint(4, 14))], B('index', '/src'), B('save', '-n', 'main', '/src')]
    def writer():
        x = rng.random()
        if x < .5:
            ops.append(['fs', g.edits(rng.randint(1, 5))])
            ops.append(B('index', '/src'))
            return B('save', '-n', rng.choice(('main', 'b')), '/src')
        return B('split', '-n', rng.choice(('sp', 'sq')), stdin=gen.rand_spec(rng, .4, 60000))
    for _ in range(rng.randint(4, 14)):
        x = rng.random()
        if x < .25:
            ops.append(writer())
        elif x < .5:
            ops.append(maint(rng))
        elif x < .58:
            ops += [B('-d', '/r2', 'init'), B('-d', '/r2', 'index', '/src'), B('-d', '/r2', 'save', '-n', 'q', '/src'),
                    ['copypacks', '/r2', '/r']]
        elif x < .66:
            ops.append(B('rm', '--unsafe', '/' + rng.choice(('main', 'b', 'sp', 'sq')), rc=['any']))
            ops.append(B('gc', '--unsafe', '--threshold', rng.choice(('0', '10', '50'))))
        elif x < .8:
            a = writer() if rng.random() < .7 else maint(rng)
            ops.append(['both', a, maint(rng), rng.randrange(1 << 30)])
        elif x < .92:
            a = writer() if rng.random() < .4 else maint(rng)
            ops.append(['kill', a, rng.random(), rng.choice(('kill', 'kill', 'none', 'random', 'all')), rng.randrange(1 << 30)])
        else:
            ops.append(['sleep', rng.choice((1, 3600)) * SEC])
    return {'cfg': cfg, 'ops': ops}

def sample(p):
    return {'ops': p['ops'][:8]}

def pack_dir(fs):
    d = fs.lookup(b'/r/objects/pack')
    return d.entries if d is not None else {}

def ask(l, rec, known, what):
    r = Repo(l.host.fs)
    ents = pack_dir(l.host.fs)
    have = set()
    for s, o in r.packs.items():
        have |= set(o)
    known |= have
    st = (sorted(n for n in ents if n.endswith((b'.idx', b'.midx'))), bytes(ents[b'bup.bloom'].data or b'') if b'bup.bloom' in ents else None)
    rec.state(st)
    m = sum(n.endswith(b'.midx') for n in ents)
    if m:
        rec.probe('with-midx')
    if m > 1:
        rec.probe('multi-midx')
    if b'bup.bloom' in ents:
        rec.probe('with-bloom')
    if any(len(v) > 1 for v in r.where.values()):
        rec.probe('duplicates')
    q = sorted(known)
    absent = [bytes([o[0], o[1] ^ 1]) + o[2:] for o in q[:50]] + [bytes([k]) * 20 for k in range(0, 256, 15)]
    absent = [o for o in absent if o not in have]
    subrng(len(q), 'order').shuffle(q)
    yes = exists_all(l, l.host, q + absent)
    rec.probe('asked')
    if yes - have:
        raise Violation('ghost', f'{what}: bup reports {sorted(yes - have)[0].hex()} as present, but no pack index has it')
    if have - yes:
        raise Violation('hidden', f'{what}: bup reports {sorted(have - yes)[0].hex()} as absent ({len(have - yes)} of {len(have)}), but a pack index has it')

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
    known = set()
    for n, op in enumerate(plan['ops']):
        k = op[0]
        what = f'after step {n} {op}'
        if k in ('fs', 'sleep'):
            l.do(op)
            continue
        if k == 'copypacks':
            if l.host.fs.lookup(b'/r2/objects/pack') is not None:
                l.do(op)
                l.host.fs.remove_tree(b'/r2')
                l.host.fs.sync_tree(b'/r/objects/pack')
                ask(l, rec, known, what)
            continue
        if k == 'both':
            seed = op[3]
            a, b = l.start(op[1]), l.start(op[2])
            l.w.run_until(lambda: a.dead and b.dead)
            lab.settle(l.w)
            for p, o in ((a, op[1]), (b, op[2])):
                result(l, lab.result(p), o, what, may_fail=True)
            rec.probe('concurrent')
        elif k == 'kill':
            l = die(l, plan, op, rec)
        else:
            if op[1][0] == 'gc':
                # (an interrupted one has to be finished first, and gc runs alone)
                rec.probe('gc')
            r = l.do(op)
            result(l, r, op, what)
        if op[1][0] == '-d':
            continue
        ask(l, rec, known, what)
        if k == 'bup' and op[1][0] in ('midx', 'bloom'):
            vouch(l, rec, op, what)
    rec.world(l.w)
    l.close()

def vouch(l, rec, op, what):
    """What has just been maintained is right, and bup's own check of it says so."""
    ents = pack_dir(l.host.fs)
    idxs = sorted(n for n in ents if n.endswith(b'.idx'))
    if op[1][0] == 'midx':
        if not any(n.endswith(b'.midx') for n in ents):
            return
        rec.probe('vouched-midx')
        for n in sorted(n for n in ents if n.endswith(b'.midx')):
            r = l.bup('midx', '--check', '/r/objects/pack/' + dec(n))
            if r.rc:
                raise Violation('check-rejects', f'{what}: bup midx --check {n.decode()} exited {r.rc}: {r.err[-300:].decode("utf-8", "replace")}')
        return
    for n in idxs:
        rec.probe('vouched-bloom')
        r = l.bup('bloom', '--check', '/r/objects/pack/' + dec(n))
        if r.rc:
            raise Violation('check-rejects', f'{what}: bup bloom --check {n.decode()} exited {r.rc} although bup bloom had just run: {r.err[-300:].decode("utf-8", "replace")}')

def result(l, r, op, what, may_fail=False):
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    if r.rc:
        if not may_fail and 'any' not in (op[2].get('rc', []) if len(op) > 2 else []):
            raise Violation('command-failed', f'{what}: {op[1]} exited {r.rc}: {r.err[-500:].decode("utf-8", "replace")}')
        return
    if op[1][0] in ('save', 'split'):
        rr = Repo(l.host.fs)
        must_complete(rr, what)
        if op[1][0] == 'save':
            check_content(rr, rr.refs()[b'refs/heads/' + enc(op[1][2])], l.host.fs, SRC, at='src')

def die(l, plan, op, rec):
    """The command, or the machine, dies in the middle."""
    p = l.start(op[1])
    # a sample of where the command does things to the disk
    base = [None]
    hits = []
    n = 1 + int(op[2] ** 2 * 120)
    def obs(q, call, path, info):
        m = l.host.fs.muts
        if base[0] is None:
            base[0] = m
        if m != base[0]:
            base[0] = m
            hits.append(1)
            if len(hits) == n:
                for x in list(l.w.procs):
                    if not x.dead:
                        l.w.kill(x, 9)
    l.w.observers.append(obs)
    l.w.run(p)
    lab.settle(l.w)
    l.w.observers.clear()
    if len(hits) < n:
        return l
    rec.probe('killed')
    rec.fault('process-kill' if op[3] == 'kill' else f'power-loss-{op[3]}')
    if op[3] == 'kill':
        return l
    rec.probe('power-loss')
    l.host.fs.sync_tree(SRC)
    img = crash_image(l, l.host, op[3], op[4], 0)
    img.mkdirs(b'/tmp', 0o1777)
    now = l.w.epoch + l.w.now
    rec.world(l.w)
    l.close()
    return Lab(dict(plan['cfg'], epoch=now + 30 * SEC, seed=op[4], trace=plan.get('trace')), fs=img)
