"""A successful save survives power loss."""

from .common import *
from .p02 import history, repo_state

ID = 'P01'
RULE = ('A plan is a generated history of source edits and bup commands (save and split, locally or to a server, get, tag, rm, gc, '
        'midx, bloom). From the moment the first command has exited successfully, power-loss images (nothing, everything '
        'or a random admissible part of the unsynchronised state survives) are taken when each command has '
        'finished and before sampled system calls of the later ones; in each image every ref must have the value it had when '
        'the last command succeeded (or one written since), with every object it needs. '
        'Distinct non-trivial: different surviving repository states.')
ASSUMPTIONS = ['git update-ref is atomic and durable (modelled, as with its default fsync setting)',
               'an fsynced file keeps its content, an fsynced directory its entries']
SHRINK = ['ops', 'ops.*.1']
PROBES = ['acked-save', 'acked-split', 'acked-get', 'acked-rsave', 'acked-gc', 'multi-pack']
MODES = ('none', 'none', 'random', 'random', 'all')

def plan(rng, tier, i):
    srv = i % 4 == 3
    cfg = base_cfg(rng, srv=srv)
    if srv:
        cfg['srv_config'] = repo_config(rng)
    g = treegen(rng, rich=rng.random() < .2)
    ops, branches, tags = history(rng, cfg, rng.randint(0, 4), g)
    if srv:
        # the same saves go to the server
        for o in ops:
            if o[0] == 'bup' and o[1][0] in ('save', 'split'):
                o[1][1:1] = ['-r', 'srv:/r']
        ops = [o for o in ops if o[0] != 'bup' or o[1][0] in ('index', 'save', 'split')]
    elif rng.random() < .4:
        ops.append(['dir', '/r2'])
        for _ in range(rng.randint(1, 2)):
            m = rng.choice((['--append', 'main'], ['--pick:', '@oid:main:0', 'new'], ['--ff:', 'main', 'cp'],
                            ['--new-tag:', 'main', 'nt%d' % rng.randrange(99)]))
            ops.append(['bup', ['-d', '/r2', 'get', '-s', '/r', *m]])
    return {'cfg': cfg, 'ops': ops, 'prob': rng.choice((.02, .05, .1)), 'tseed': rng.randrange(1 << 30)}

def sample(p):
    return {'ops': [o for o in p['ops'] if o[0] == 'bup'][:8], 'cfg': p['cfg']}

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
    srv = l.srv is not None
    host = l.srv if srv else l.host
    paths = [REPO]
    if any(o[0] == 'dir' for o in plan['ops']):
        l.bup('-d', '/r2', 'init')
        l.host.fs.sync_all()
        paths.append(b'/r2')
    acc = {} # path -> name -> acceptable values (None: no such ref)
    cur = {}
    def refs(fs, p):
        r = Repo.__new__(Repo)
        r.fs, r.path = fs, p
        return r.refs()
    def see():
        for p in paths:
            new = refs(host.fs, p)
            for n in set(new) | set(acc.setdefault(p, {})):
                acc[p].setdefault(n, {None}).add(new.get(n))
            cur[p] = new
    def settle():
        for p in paths:
            cur[p] = refs(host.fs, p)
            acc[p] = {n: {o} for n, o in cur[p].items()}
    changed = [-1]
    def watch(p, call, path, info):
        if l.w.refs_changed != changed[0]:
            changed[0] = l.w.refs_changed
            see()
    def check(img, where):
        see()
        for p in paths:
            r = Repo(img, p)
            try:
                got = r.refs()
            except Bad as ex:
                raise Violation('bad-ref', str(ex))
            for n, ok in acc[p].items():
                if got.get(n) not in ok:
                    raise Violation('acked-lost', f'{dec(n)} is {(got.get(n) or b"").hex()[:12] or None}, acknowledged was '
                                    f'{[o.hex()[:12] if o else None for o in ok]}')
            must_complete(r, 'acknowledged refs')
        rec.state(repo_state(img, paths[-1]))
    settle()
    crash = Crashes(l, host, sampler(plan['tseed'], plan['prob'], modes=MODES), check, plan.get('trial'), rec, 'after an acknowledged command')
    l.w.observers += [watch, crash]
    sampled = crash.sample
    for op in plan['ops']:
        if op[0] == 'dir':
            continue
        if op[0] != 'bup':
            l.do(op)
            continue
        r = l.do(op)
        if l.w.harness_errors:
            raise HarnessError(str(l.w.harness_errors[0]))
        if r.rc == 0:
            settle()
            name = next(a for a in op[1] if a in ('save', 'split', 'get', 'rm', 'gc', 'tag', 'midx', 'bloom', 'index', 'init'))
            rec.probe('acked-' + ('r' if srv and name == 'save' else '') + name)
        elif op[1][0] in ('index', 'save', 'split'):
            raise SetupFailed(op, r)
        # at rest: always look
        crash.muts = -1
        crash.sample = lambda k: [('none', k), ('random', k * 7919 + plan['tseed'])] if op[1][0] != 'index' else []
        crash.at(f'after {" ".join(op[1][:6])}')
        crash.sample = sampled
        crash.check()
    l.w.observers.clear()
    if any(len(Repo(host.fs, p).packs) > 3 for p in paths):
        rec.probe('multi-pack')
    rec.world(l.w)
    l.close()
