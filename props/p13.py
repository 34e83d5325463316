"""Concurrent writers never lose or corrupt each other's saves."""

from .common import *
from .p04 import check_content, bad_packs

ID = 'P13'
RULE = ('A plan is a serial history followed by two to five clients that run command sequences at the same time on one repository: index and save of their own tree with their own index '
        'file (or a shared one), split, get from another repository, rm of saves and branches, prune-older, tag, midx, bloom, validate-refs, restore and ls of older saves; on the repository\'s '
        'machine, or from one or two others over ssh (sharing or not sharing an index cache). The scheduler preempts at random system calls with sampled '
        'probability (0.003 to 1); in a third of the runs one command is also stopped at some system call, or when it is about to change its ref, until all the others have finished everything. Some processes are killed. Whenever a command succeeds its commit must be in its branch and every ref complete; at the end no acknowledged '
        'commit may be gone, a command may only have failed because its branch was changed by another, readers must have read the right data, and a further '
        'round of saves must be right. Distinct non-trivial: different orders in which the refs were updated and packs published.')
ASSUMPTIONS = ['git update-ref is atomic (it takes a lock)', 'gc does not run at the same time']
SHRINK = ['clients', 'clients.*.ops', 'pre', 'pre.*.1']
PROBES = ['save-ok', 'split-ok', 'get-ok', 'rm-ok', 'reader-ok', 'maintenance', 'lost-race', 'shared-cache', 'remote', 'killed', 'same-branch', 'both-won', 'shared-index', 'stall', 'stall-ref', 'rmb-ok', 'prune-ok']
BR = ('main', 'main', 'b2', 'b3')

def plan(rng, tier, i):
    mode = ('local', 'local', 'remote')[i % 3]
    cfg = base_cfg(rng, srv=mode == 'remote', preempt=rng.choice((.003, .02, .1, .3, 1)))
    cfg['max_steps'] = 8_000_000
    if mode == 'remote':
        cfg['srv_config'] = repo_config(rng)
    g = treegen(rng, rich=False, big=.1, maxsize=30000)
    n = rng.choice((2, 2, 3, 4, 5))
    pre = [['edit', k, g.edits(rng.randint(1, 5))] for k in range(n)]
    pre += [['save', rng.randrange(n), rng.choice(BR)] for _ in range(rng.randint(0, 4))]
    if rng.random() < .4:
        pre.append([rng.choice(('midx', 'bloom'))])
    if rng.random() < .3:
        pre.append(['other', rng.randint(0, 99)])
    busy = rng.choice(BR) if rng.random() < .5 else None # everyone uses one branch
    clients = []
    for k in range(n):
        ops = []
        where = rng.choice(('host', 'host', 'host2', 'srv')) if mode == 'remote' else 'host'
        for _ in range(rng.choice((1, 1, 2, 3))):
            x = rng.random()
            br = busy or rng.choice(BR)
            if x < .5:
                if ops and rng.random() < .7:
                    ops.append(['edit', g.edits(rng.randint(1, 3))])
                if rng.random() < .8:
                    ops.append(['index'])
                ops.append(['save', br])
            elif x < .62:
                ops.append(['split', rng.choice(('sp', 'sp', 'sq')) if busy is None else 'sp', gen.rand_spec(rng, .4, 40000)])
            elif x < .7:
                ops.append(['get', rng.choice(('append', 'pick', 'ff')), br])
            elif x < .76:
                ops.append(rng.choice((['rm', br, rng.randrange(3)], ['rmb', br], ['prune', br, rng.choice(('1s', '3s', '20s'))])))
            elif x < .8:
                ops.append(['tag', f't{rng.randrange(2)}', br])
            elif x < .9:
                ops.append(['maint', *rng.choice((['midx', '-a'], ['midx', '-f'], ['bloom'], ['bloom', '-f'], ['midx', '-a', '--max-files', '5']))])
            else:
                ops.append(['read', rng.choice(('restore', 'ls', 'validate', 'join'))])
        clients.append({'at': where, 'ops': ops, 'shared': rng.random() < .2, 'kill': rng.randint(20, 2000) if rng.random() < .08 else None})
    stall = None
    if i % 5 < 2: # a duel for one branch: one command is about to change it, or in the middle
        br = 'main'
        pre = [['edit', k, g.edits(rng.randint(1, 3))] for k in range(3)] + [['save', rng.randrange(3), br] for _ in range(rng.choice((0, 1, 1, 2, 2, 3)))]
        def one(rep):
            x = rng.random()
            if rep and x < .45:
                return rng.choice((['rm', br, rng.randrange(2)], ['rmb', br], ['prune', br, '1s']))
            return rng.choice((['save', br], ['save', br], ['split', br, gen.rand_spec(rng, .4, 40000)], ['get', rng.choice(('append', 'pick', 'ff')), br], ['tag', 't0', br]))
        rep = 'srv' if mode == 'remote' else 'host'
        clients = []
        for k in range(3):
            at = rng.choice((rep, 'host'))
            clients.append({'at': at, 'ops': [one(at == rep) for _ in range(1 if k == 0 else rng.choice((0, 1, 1, 2) if k == 2 else (1, 1, 2)))], 'shared': False, 'kill': None})
        stall = {'k': 0, 'at': 'ref' if rng.random() < .75 else int(10 ** rng.uniform(.5, 3.3))}
        n = 3
    elif rng.random() < .3:
        k = rng.randrange(n)
        stall = {'k': k, 'at': 'ref' if rng.random() < .6 else int(10 ** rng.uniform(.5, 3.3))}
        if rng.random() < .5: # one command that changes a branch is in the middle of it
            c = clients[k]
            if c['at'] in ('host', 'srv') and c['at'] == ('srv' if mode == 'remote' else 'host'):
                c['ops'] = [rng.choice((['rm', busy or 'main', rng.randrange(3)], ['rmb', busy or 'main'], ['prune', busy or 'main', '1s'], ['save', busy or 'main']))]
    return {'cfg': cfg, 'mode': mode, 'stall': stall, 'pre': pre, 'n': n, 'clients': clients, 'seed2': rng.randrange(1 << 30)}

def sample(p):
    return {'mode': p['mode'], 'preempt': p['cfg']['preempt'], 'clients': [[c['at'], c['shared'], [o[:2] for o in c['ops']]] for c in p['clients']]}

def home(plan, k):
    return plan['clients'][k]['at'] if k < len(plan['clients']) else 'host'

class Client:
    def __init__(self, run, k, c):
        self.run, self.k, self.c = run, k, c
        self.host = run.l.w.hosts[c['at']]
        self.ops = list(c['ops'])
        self.p = self.op = None
        self.dead = False
        self.src = b'/src/c%d' % k
        self.index = b'/tmp/shared' if c['shared'] else b'/tmp/i%d' % k
        self.remote = run.remote and c['at'] != 'srv'

    def argv(self, op):
        rem = ['-r', 'srv:/r'] if self.remote else []
        k = op[0]
        if k == 'index':
            return ['index', '-f', self.index, self.src]
        if k == 'save':
            return ['save', *rem, '-c', '-f', self.index, '-n', op[1], self.src]
        if k == 'split':
            return ['split', *rem, '-c', '-n', op[1]]
        if k == 'get':
            return ['get', '-s', '/r2', *rem, '-c', '--' + op[1] + ':', 'o' if op[1] != 'pick' else 'o/latest', op[2]]
        if k == 'rm':
            return None if rem else ['rm', '--unsafe', b'/' + enc(op[1]) + b'/' + self.save_name(op)]
        if k == 'rmb':
            return None if rem else ['rm', '--unsafe', b'/' + enc(op[1])]
        if k == 'prune':
            return None if rem else ['prune-older', '--unsafe', '--no-gc', '--keep-all-for=' + op[2], op[1]]
        if k == 'tag':
            return None if rem else ['tag', '-f', op[1], op[2]]
        if k == 'maint':
            return None if rem else op[1:]
        if k == 'read':
            old = self.run.old
            if not old:
                return None
            b, o, s, snap, name = old[self.k % len(old)]
            self.reading = (b, o, s, snap)
            if op[1] == 'restore' or rem and op[1] != 'join':
                return ['restore', *rem, '-C', b'/tmp/out%d' % self.k, b'/%s/%s/%s/.' % (b, name, s.lstrip(b'/'))]
            if op[1] == 'ls':
                return ['ls', '-A', b'/%s/%s/%s/' % (b, name, s.lstrip(b'/'))]
            if op[1] == 'join': # (the commit's tree is no stream, but has one)
                return ['restore', *rem, '-C', b'/tmp/out%d' % self.k, b'/%s/%s/%s/.' % (b, name, s.lstrip(b'/'))]
            return ['validate-refs']

    def save_name(self, op):
        r = self.run.repo()
        o = r.refs().get(b'refs/heads/' + enc(op[1]))
        if o is None:
            return b'none'
        h = r.history(o)
        n = min(op[2], len(h) - 1)
        self.target = h[n]
        return lab.save_names(r, h)[n]

    def next(self):
        """Start the next command."""
        fs = self.host.fs
        while self.ops:
            op = self.ops.pop(0)
            if op[0] == 'edit':
                for e in op[1]:
                    gen.apply_edit(fs, self.src, e)
                self.run.l.w.now += 2 * SEC
                continue
            if op[0] in ('save',) and fs.lookup(self.index) is None:
                self.ops[:0] = [['index'], op]
                continue
            if op[0] == 'index' and self.c['shared']:
                continue # (has been indexed before, for all)
            self.run.note_refs()
            self.before = len(self.run.refs_log) - 1
            a = self.argv(op)
            if a is None:
                continue
            self.op = op
            if op[0] == 'read':
                if fs.lookup(b'/tmp/out%d' % self.k) is not None:
                    fs.remove_tree(b'/tmp/out%d' % self.k)
            self.what = f'client {self.k} on {self.host.name}: {b" ".join(x if isinstance(x, bytes) else enc(x) for x in a).decode("latin-1")}'
            kw = {'stdin': gen.content(op[2])} if op[0] == 'split' else {}
            self.p = lab.start(self.run.l.w, self.host, [b'bup', *a], **kw)
            self.lines = self.run.moves
            self.doomed = None
            return
        self.p = None

class Run:
    def __init__(self, plan, rec):
        self.plan, self.rec = plan, rec
        self.remote = plan['mode'] == 'remote'
        l = self.l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
        w = l.w
        if self.remote:
            rec.probe('remote')
            h2 = lab.add_host(w, 'host2')
            h2.fs.now = h2.wall_ns
            lab.ok(lab.bup(w, h2, 'init'), 'init')
        self.rh = l.srv if self.remote else l.host
        self.old = [] # (branch, commit, source, snapshot, save name)
        for k in range(plan['n']):
            w.hosts[home(plan, k)].fs.mkdirs(b'/src/c%d' % k)
        have_other = False
        for op in plan['pre']:
            self.pre(op)
        self.other()
        for h in w.hosts.values():
            h.fs.sync_all()
        self.acked = [] # (branch, oid or None, key, what)
        self.removed = set()
        self.moves = 0
        self.refs_log = []
        self.log = []

    def repo(self):
        return Repo(self.rh.fs)

    def refs(self):
        return dict(self.repo().refs())

    def note_refs(self):
        r = self.refs()
        if not self.refs_log or self.refs_log[-1] != r:
            self.refs_log.append(r)

    def pre(self, op):
        l, w = self.l, self.l.w
        if op[0] == 'edit':
            fs = w.hosts[home(self.plan, op[1])].fs
            for e in op[2]:
                gen.apply_edit(fs, b'/src/c%d' % op[1], e)
        elif op[0] == 'save':
            k = op[1]
            src = b'/src/c%d' % k
            h = w.hosts[home(self.plan, k)]
            rem = ['-r', 'srv:/r'] if self.remote and h.name != 'srv' else []
            w.now += 3 * SEC
            for a in (['index', '-f', b'/tmp/i%d' % k, src], ['save', *rem, '-f', b'/tmp/i%d' % k, '-n', op[2], src]):
                r = lab.bup(w, h, *a)
                if r.rc:
                    raise SetupFailed(['bup', [str(x) for x in a]], r)
            r = self.repo()
            o = r.refs()[b'refs/heads/' + enc(op[2])]
            self.old.append((enc(op[2]), o, src, snapshot(h.fs, src), None))
        elif op[0] in ('midx', 'bloom'):
            lab.bup(w, self.rh, op[0], *(['-a'] if op[0] == 'midx' else []))
        elif op[0] == 'other':
            pass
        w.now += 2 * SEC
        # save names
        r = self.repo()
        refs = r.refs()
        old = []
        for b, o, s, snap, _ in self.old:
            h = r.history(refs[b'refs/heads/' + b])
            old.append((b, o, s, snap, lab.save_names(r, h)[h.index(o)]))
        self.old = old

    def other(self):
        """Something to get, on every machine."""
        for h in self.l.w.hosts.values():
            lab.ok(lab.bup(self.l.w, h, '-d', '/r2', 'init'), 'init')
            self.l.add_config(h, b'/r2', self.l.cfg.get('srv_config' if self.remote else 'config') or '')
            r = lab.bup(self.l.w, h, '-d', '/r2', 'split', '-n', 'o', stdin=subrng(self.plan['seed2'], h.name).randbytes(20000))
            lab.ok(r, 'split')

def snapshot(fs, top):
    out = {}
    for p, i in fs.tree(top):
        out[p[len(top):].lstrip(b'/')] = ('dir',) if i.entries is not None else ('file', bytes(i.data)) if i.data is not None else ('link', i.target)
    return out

def key(r, o):
    c = r.commit(o)
    return c['tree'], c['author'], c['msg']

def execute(plan, rec):
    run = Run(plan, rec)
    l, w = run.l, run.l.w
    clients = [Client(run, k, c) for k, c in enumerate(plan['clients']) if c['ops']]
    if not clients:
        return
    if sum(c.c['at'] == 'host' and c.remote for c in clients) > 1:
        rec.probe('shared-cache')
    if sum(c.c['shared'] for c in clients) > 1:
        rec.probe('shared-index')
    for c in clients:
        if c.c['shared']:
            lab.ok(lab.bup(w, c.host, *c.argv(['index'])), 'index')
            c.host.fs.sync_all()
    events = []
    def watch(p, call, path, info):
        if call == 'update-ref':
            run.note_refs()
        if path and call in ('rename', 'update-ref') and path.startswith(b'/r/') and p.host is run.rh:
            events.append((call, path.rsplit(b'.')[-1][:6] if call == 'rename' else path))
        for c in clients:
            if c.c['kill'] and c.p is not None and not c.p.dead and c.p is p:
                c.c = dict(c.c, kill=c.c['kill'] - 1)
                if c.c['kill'] == 0:
                    rec.probe('killed')
                    rec.fault('process-kill')
                    c.dead = True
                    w.kill(p, 9)
    def ref_change(p, call, path, info):
        # (what a command is to remove was decided before it starts git update-ref)
        if p.name() == 'git update-ref':
            for c in clients:
                if c.p is not None and c.op[0] in ('rmb', 'prune') and p.parent is c.p:
                    r = run.repo()
                    o = r.refs().get(b'refs/heads/' + enc(c.op[1]))
                    if p.aux.get('seen') is None:
                        p.aux['seen'] = True
                        c.doomed = (c.doomed or set()) | {key(r, x) for x in (r.history(o) if o is not None else [])}
    w.observers.append(watch)
    w.observers.append(ref_change)
    st = plan.get('stall')
    if st and st['k'] in [c.k for c in clients]:
        me = next(c for c in clients if c.k == st['k'])
        def stall(w, p, *a):
            rec.probe('stall-ref' if st['at'] == 'ref' else 'stall')
            rec.fault('stalled-process')
            w.block(p, lambda: me.p is None or me.p.dead or all(c is me or c.p is None for c in clients))
        class Stall(Fault):
            def matches(self, w, p, call, path):
                if me.p is None or me.p.dead:
                    return False
                if st['at'] != 'ref':
                    return p is me.p
                if p.name() != 'git update-ref':
                    return False
                while p is not None and p is not me.p and not me.remote:
                    p = p.parent
                return me.remote or p is not None
        w.faults.append(Stall({'nth': 0 if st['at'] == 'ref' else st['at'], 'action': 'call', 'calls': None}, stall))
    for c in clients:
        c.next()
    try:
        while True:
            live = [c for c in clients if c.p is not None]
            if not live:
                break
            w.run_until(lambda: any(c.p.dead for c in live))
            for c in live:
                if c.p.dead:
                    finished(run, c)
                    c.next()
        lab.settle(w)
    except SimHang as ex:
        raise Violation('hang', f'{[c.what for c in clients if c.p is not None and not c.p.dead]}: {ex}')
    w.observers.clear()
    if w.harness_errors:
        raise HarnessError(str(w.harness_errors[0]))
    rec.trials += 1
    rec.state(tuple(events))
    # nothing acknowledged may be gone
    r = run.repo()
    must_complete(r, 'at the end')
    b = bad_packs(r)
    if b:
        raise Violation('bad-pack', b[0])
    check_acked(run, r, 'at the end')
    # another round, one after the other
    w.now += 3 * SEC
    for c in clients:
        if c.index == b'/tmp/shared' and sum(x.index == c.index for x in clients) > 1:
            continue # (all the shared index knows is what was indexed last)
        for a in (c.argv(['index']), c.argv(['save', 'after'])):
            x = lab.bup(w, c.host, *a)
            if x.rc:
                raise Violation('next-failed', f'afterwards: client {c.k}: {a} exited {x.rc}: {x.err[-500:].decode("utf-8", "replace")}')
        r = run.repo()
        must_complete(r, 'after the next save')
        check_content(r, r.refs()[b'refs/heads/after'], c.host.fs, c.src, at=c.src.decode())
    rec.world(w)
    l.close()

def conflict(run, c):
    """Did somebody else change what the command was to change, since it was started?"""
    run.note_refs()
    k = c.op[0]
    n = b'refs/heads/' + enc(c.op[1] if k in ('save', 'split', 'rm', 'rmb', 'prune') else c.op[2]) if k in ('save', 'split', 'get', 'rm', 'rmb', 'prune', 'tag') else None
    if k == 'tag':
        return True # (its branch may not exist)
    return n is not None and len({x.get(n) for x in run.refs_log[c.before:]}) > 1

def finished(run, c):
    rec, op = run.rec, c.op
    r = lab.result(c.p)
    rr = run.repo()
    must_complete(rr, f'when {c.what} ended')
    k = op[0]
    if k == 'read': # (the save may have been removed)
        b, o = c.reading[:2]
        h = rr.refs().get(b'refs/heads/' + b)
        if h is None or o not in rr.objs or all(key(rr, x) != key(rr, o) for x in rr.history(h)):
            return
    if c.dead:
        c.ops = []
        c.dead = False
        # what a killed command has done counts if it was acknowledged only
        if k == 'rm':
            run.removed.add(key(rr, c.target) if c.target in rr.objs else None)
        run.removed |= c.doomed or set()
        return
    if r.rc:
        if k in ('index', 'maint', 'read', 'split', 'save') and not conflict(run, c) or b'Traceback' in r.err and not conflict(run, c):
            raise Violation('failed', f'{c.what}: exit {r.rc}, though nobody changed its branch: {r.err[-900:].decode("utf-8", "replace")}')
        if k in ('save', 'split'):
            rec.probe('lost-race')
        return
    refs = rr.refs()
    if k in ('save', 'split', 'get'):
        rec.probe(k + '-ok')
        br = enc(op[1] if k != 'get' else op[2])
        o = bytes.fromhex(r.out.split()[-1].decode())
        if o not in rr.objs:
            raise Violation('lost', f'{c.what}: the commit {o.hex()} is not in the repository')
        if any(a[0] == br for a in run.acked):
            rec.probe('both-won')
        run.acked.append((br, o, key(rr, o), c.what))
        if conflict(run, c):
            rec.probe('same-branch')
        check_acked(run, rr, f'when {c.what} ended')
        if k == 'save':
            check_content(rr, o, c.host.fs, c.src, at=c.src.decode()) if not c.c['shared'] and indexed(c) else None
    elif k in ('rmb', 'prune'):
        rec.probe(k + '-ok')
        run.removed |= c.doomed or set()
        check_acked(run, rr, f'when {c.what} ended')
    elif k == 'rm':
        rec.probe('rm-ok')
        run.removed.add(key(rr, c.target))
        b = b'refs/heads/' + enc(op[1])
    elif k == 'maint':
        rec.probe('maintenance')
    elif k == 'read':
        rec.probe('reader-ok')
        reader(run, c, r)

def indexed(c):
    """Was the tree indexed after its last change?"""
    ops = c.c['ops']
    done = ops[:len(ops) - len(c.ops)]
    e = max([i for i, o in enumerate(done) if o[0] == 'edit'], default=-1)
    x = max([i for i, o in enumerate(done) if o[0] == 'index'], default=None)
    if x is None:
        return not any(o[0] == 'edit' for o in done) and False
    return x > e

def check_acked(run, r, what):
    refs = r.refs()
    for br, o, k, cmd in run.acked:
        if k in run.removed:
            continue
        h = refs.get(b'refs/heads/' + br)
        hist = r.history(h) if h is not None else []
        if o in hist:
            continue
        if any(key(r, x) == k for x in hist): # (rewritten when an older one was removed)
            continue
        raise Violation('lost-save', f'{what}: {cmd} was successful, but its commit {o.hex()} is no longer in branch {dec(br)}')

def reader(run, c, r):
    b, o, s, snap = c.reading
    if c.op[1] == 'ls' and not c.remote:
        got = sorted(x for x in r.out.split(b'\n') if x)
        want = sorted(p for p in snap if p and b'/' not in p)
        if b''.join(want).replace(b'\n', b'') != b''.join(got) and not any(b'\n' in x for x in want):
            raise Violation('reader', f'{c.what}: listed {got} instead of {want}')
    elif c.op[1] == 'validate' and not c.remote:
        pass
    else:
        got = snapshot(c.host.fs, b'/tmp/out%d' % c.k)
        if got != snap:
            d = [p for p in sorted(set(got) | set(snap)) if got.get(p) != snap.get(p)]
            raise Violation('reader', f'{c.what}: {d[0]!r} was not restored as saved')
