"""Removing saves and collecting garbage really forgets them."""

from .common import *
from .p04 import check_content
from .p07 import live
from .p16 import dangling

ID = 'P08'
RULE = ('A plan is a sequence of rounds on one repository (local, or on a server that a client with its own index cache saves to): edits, index, save, '
        'split, removal of saves, branches or tags, midx and bloom maintenance, killed saves that leave unreferenced packs, and garbage collections. '
        'After each collection at threshold zero no unreachable commit or tree may be in a pack and only packs, indexes, midx and bloom files may be left in the pack '
        'directory; after each collection whatever object is left must be complete, and a new process must report exactly the objects in the packs as present; each save '
        '(also of data that had been removed, with the index still knowing its ids) must be complete. '
        'Distinct non-trivial: different pack directories after a collection that removed something.')
ASSUMPTIONS = ['one collection at a time and no writers during it', 'after an interrupted collection, gc is run again before data is added']
SHRINK = ['ops', 'ops.*.1']
PROBES = ['collected', 'threshold-0', 'exists-checked', 'resave-removed', 'remote', 'killed-save', 'stale-cache', 'dead-tree-removed']

def plan(rng, tier, i):
    cfg = base_cfg(rng, srv=i % 4 == 3)
    if cfg['srv']:
        cfg['srv_config'] = repo_config(rng)
    g = treegen(rng, rich=rng.random() < .2, big=.1, maxsize=60000)
    srv = cfg['srv']
    where = {'host': 'srv'} if srv else {}
    rem = ['-r', 'srv:/r'] if srv else []
    ops = [['fs', g.edits(rng.randint(4, 14))]]
    branches = ['main']
    def save(b, idx=True):
        if idx:
            ops.append(B('index', '/src'))
        ops.append(B('save', *rem, '-n', b, '/src'))
        if b not in branches:
            branches.append(b)
        ops.append(['sleep', 2 * SEC])
    save('main')
    for _ in range(rng.randint(4, 12)):
        x = rng.random()
        if x < .18:
            ops.append(['fs', g.edits(rng.randint(1, 5))])
            save(rng.choice(branches))
        elif x < .30:
            save(rng.choice(branches + ['b%d' % rng.randrange(9)]), rng.random() < .5)
        elif x < .36:
            ops.append(B('split', *rem, '-n', rng.choice(('sp', 'sp2')), stdin=gen.rand_spec(rng, .4, 60000)))
        elif x < .44:
            ops.append(B('rm', '--unsafe', '/' + rng.choice(branches), rc=['any'], **where))
        elif x < .52:
            ops.append(B('rm', '--unsafe', '/main/@save:main:%d' % rng.randrange(3), rc=['any'], **where))
        elif x < .56:
            ops.append(B('tag', *rng.choice((['-f', 't', 'main'], ['-f', '-d', 't'])), rc=['any'], **where))
        elif x < .62:
            ops.append(B('midx', rng.choice(('-f', '-a')), **where))
        elif x < .68:
            ops.append(B('bloom', *rng.choice(([], ['-f'])), **where))
        elif x < .74:
            ops.append(['fs', g.edits(rng.randint(1, 5))])
            ops.append(B('index', '/src'))
            ops.append(['killed', ['save', *rem, '-n', 'main', '/src'], rng.random()])
        else:
            ops.append(B('rm', '--unsafe', '/' + rng.choice(branches), rc=['any'], **where))
            ops.append(B('gc', '--unsafe', '--threshold', rng.choice(('0', '0', '10', '30', '60', '90')), **where))
            if rng.random() < .8:
                save(rng.choice(branches), rng.random() < .5)
    ops.append(B('gc', '--unsafe', '--threshold', '0', **where))
    save('main')
    return {'cfg': cfg, 'ops': ops}

def sample(p):
    return {'ops': p['ops'][:8], 'srv': p['cfg']['srv']}

def exists_all(l, host, oids):
    """What a new process says about the presence of objects."""
    def fn(load):
        load('bup.git').check_repo_or_die()
        with load('bup.repo').LocalRepo() as repo:
            return [o for o in oids if repo.exists(o)]
    r, v = lab.call(l.w, host, fn)
    if r.rc or v is None:
        raise Violation('exists-failed', f'exit {r.rc}: {r.err[-500:].decode("utf-8", "replace")}')
    return set(v)

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
    srv = plan['cfg'].get('srv')
    host = l.srv if srv else l.host
    if srv:
        rec.probe('remote')
    known = set()
    removed = False
    for op in plan['ops']:
        if op[0] == 'killed':
            killed(l, op, rec)
            known |= set(Repo(host.fs).objs)
            continue
        name = op[1][0] if op[0] == 'bup' else None
        p0 = {s: set(o) for s, o in Repo(host.fs).packs.items()} if name == 'gc' else None
        names0 = set(host.fs.lookup(b'/r/objects/pack').entries)
        r = l.do(op)
        if r is None:
            continue
        if l.w.harness_errors:
            raise HarnessError(str(l.w.harness_errors[0]))
        if r.rc and 'any' not in (op[2].get('rc', []) if len(op) > 2 else []) and name not in ('midx', 'bloom'):
            if name != 'split':
                raise SetupFailed(op, r)
        now = Repo(host.fs)
        known |= set(now.objs)
        must_complete(now, f'after {op[1]}')
        if name == 'gc':
            rec.probe('collected')
            after(l, rec, host, op, p0, names0, now, known)
            removed = removed or set(p0) - set(now.packs)
        elif name == 'save':
            if removed:
                rec.probe('resave-removed')
                if srv:
                    rec.probe('stale-cache')
            if l.host.fs.lookup(SRC) is not None:
                check_index_save(l, now, op, rec)
    rec.world(l.w)
    l.close()

def check_index_save(l, r, op, rec):
    b = op[1][op[1].index('-n') + 1]
    check_content(r, r.refs()[b'refs/heads/' + enc(b)], l.host.fs, SRC, at='src', partial=False)

def after(l, rec, host, op, p0, names0, r, known):
    what = f'after {op[1]}'
    if '0' in op[1]:
        rec.probe('threshold-0')
        lv = live(r)[0]
        for stem, objs in sorted(r.packs.items()):
            dead = sorted(o for o in objs if objs[o][0] in (b'commit', b'tree') and o not in lv)
            if dead:
                raise Violation('not-forgotten', f'{what}: {len(dead)} unreachable commits or trees are left in {dec(stem)}, e.g. '
                                f'{objs[dead[0]][0].decode()} {dead[0].hex()}')
        d = host.fs.lookup(b'/r/objects/pack')
        for n in sorted(set(d.entries) - names0):
            if not n.endswith((b'.pack', b'.idx', b'.midx')) and n != b'bup.bloom':
                raise Violation('left-behind', f'{what}: {n!r} is left in objects/pack')
    x = dangling(r)
    if x:
        raise Violation('dangling', f'{what}: {x}, so a save that finds it present would be incomplete')
    if set(p0) - set(r.packs):
        rec.state(*sorted(r.packs))
    have = set(r.objs)
    gone = known - have
    if any(o for o in gone):
        rec.probe('dead-tree-removed')
    ask = sorted(known) + [bytes([k]) * 20 for k in range(0, 256, 17)]
    yes = exists_all(l, host, ask)
    rec.probe('exists-checked')
    if yes - have:
        raise Violation('ghost', f'{what}: bup reports {sorted(yes - have)[0].hex()} as present, which is not')
    if have - yes:
        raise Violation('hidden', f'{what}: bup reports {sorted(have - yes)[0].hex()} as absent, which is present')

def killed(l, op, rec):
    """A save dies in the middle (it may leave packs that nothing refers to)."""
    import copy
    p = lab.start(l.w, l.host, [b'bup'] + l.args(op[1], l.host))
    n = int(op[2] ** 2 * 3000) + 150
    hit = []
    def obs(q, call, path, info):
        if q is p and q.nsys >= n and not hit:
            hit.append(1)
            l.w.kill(p, 9)
    l.w.observers.append(obs)
    l.w.run(p)
    lab.settle(l.w)
    l.w.observers.clear()
    if hit:
        rec.probe('killed-save')
        rec.fault('process-kill')
