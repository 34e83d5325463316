"""A remote backup is the same backup."""

from .common import *

ID = 'P11'
RULE = ('A plan is a history of index, save, split, get, join, restore and init commands with edits of the source in between, mixed with saves, removals, '
        'garbage collection and lookup-index maintenance done at the repository\'s machine. It is executed twice: with the repository on the same '
        'machine, and with the repository on another machine reached through ssh, through bup daemon (multiplexed TCP) or in reverse through bup on, '
        'with sampled fragmentation, latency, pipe capacities, partial writes and schedules. Exit status, output, refs, histories, saved trees, the set '
        'of stored objects and restored files must agree after every command; no command may hang. Distinct non-trivial: different '
        '(transport, operation, saved trees) combinations.')
ASSUMPTIONS = ['commit ids differ as they contain the command line; commits are compared by tree, date and position']
SHRINK = ['ops', 'ops.*.1']
PROBES = ['ssh', 'bup', 'on', 'save', 'split', 'get', 'join', 'restore', 'suggested', 'no-dedup', 'gc-between', 'stdout', 'failing', 'second-client', 'bwlimit']

REFS = ('main', 'other')

def plan(rng, tier, i):
    mode = ('ssh', 'bup', 'on', 'ssh')[i % 4]
    config = repo_config(rng)
    if rng.random() < .3:
        config += '[bup "server"]\n\tdeduplicate-writes = false\n'
    cfg = base_cfg(rng, srv=True, srv_config=config)
    cfg['config'] = config if mode == 'on' else ''
    cfg['srv_config'] = config if mode != 'on' else ''
    cfg['preempt'] = rng.choice((0, .02, .2, .5))
    cfg['frag'] = rng.choice(('none', 'mixed', 'mixed', 'tiny'))
    cfg['pipe_capacity'] = rng.choice((4096, 4096, 65536, 1 << 20))
    cfg['latency'] = rng.choice((0, 100_000, 20_000_000, 500_000_000))
    cfg['short_writes'] = rng.choice((0, 0, .2))
    big = .1 if cfg['frag'] != 'tiny' else .03
    g = treegen(rng, big=big, maxsize=100000 if cfg['frag'] != 'tiny' else 30000)
    ops = [['edit', g.edits(rng.randint(4, 16))], ['index'], ['save', 'main', []]]
    for _ in range(rng.randint(3, 9)):
        x = rng.random()
        if x < .3:
            ops.append(['edit', g.edits(rng.randint(1, 6))])
            ops.append(['index'])
            ops.append(['save', rng.choice(REFS), rng.choice(([], [], ['--strip'], ['-9'], ['--bwlimit=1M'], ['-t'], ['--smaller=3000'], ['--noindex'][:0]))])
        elif x < .45:
            ops.append(['split', rng.choice((['-n', 'sp'], ['-n', 'sp'], ['-t'], ['-b'], ['-c'], ['-n', 'sp', '--keep-boundaries'], ['-n', 'sp', '--blobs'],
                                             ['-n', 'sp', '--bwlimit=200k'], ['-n', 'sp', '--fanout=4'], ['-n', 'sp', '--max-pack-objects=3'], ['-n', 'sp', '--max-pack-size=3000'])),
                        [gen.rand_spec(rng, .3 * (big > .05), 200000 if big > .05 else 20000) for _ in range(rng.choice((1, 1, 2)))]])
        elif x < .55:
            # what the client holds is already there, unknown to it
            ops.append(['local', rng.choice((B('index', '/src'), B('split', '-n', 'new', stdin=gen.rand_spec(rng, .2, 50000)),
                                             B('save', '-n', 'there', '/src'), B('save', '-n', 'there', '/src'), B('midx', '-f'), B('bloom', '-f'),
                                             B('rm', '--unsafe', 'other'), B('gc', '--unsafe', '--threshold=0'), B('tag', 't', 'main')))])
        elif x < .68:
            ops.append(['restore', rng.choice(('/main/latest', '/main/latest/.', '/main/latest/src/.', '/other/latest/src', '/nonexistent/latest', '/main/latest/src/nope', '/main'))])
        elif x < .8:
            ops.append(['join', rng.choice((['sp'], ['sp'], ['nonexistent'], ['sp', 'sp'], ['main'], ['sp~1']))])
        elif x < .9:
            ops.append(['get', rng.choice(('--ff', '--append', '--replace', '--pick', '--force-pick', '--new-tag', '--unnamed')),
                        rng.choice(('main', 'main', 'xsrc', 'main~1', 'nope')), rng.choice((None, 'got', 'main', '.tag/gt'))])
        else:
            ops.append(['init'])
    return {'cfg': cfg, 'mode': mode, 'ops': ops, 'xsrc': g.edits(2), 'two': rng.random() < .2}

def sample(p):
    return {'mode': p['mode'], 'cfg': {k: p['cfg'].get(k) for k in ('frag', 'latency', 'pipe_capacity', 'preempt', 'short_writes')}, 'ops': [o if o[0] not in ('edit',) else ['edit', o[1][:3]] for o in p['ops']]}

class Side:
    """One of the two executions."""
    def __init__(self, plan, remote):
        cfg = dict(plan['cfg'], trace=plan.get('trace'))
        self.mode = plan['mode'] if remote else 'local'
        if not remote:
            cfg.update(srv=False, config=plan['cfg']['srv_config'] + plan['cfg']['config'])
            for k in ('frag', 'latency', 'preempt', 'pipe_capacity', 'short_writes'):
                cfg.pop(k, None)
        self.l = Lab(cfg)
        w = self.l.w
        # client: where the source is; repo: where the repository is
        self.client = self.l.srv if self.mode == 'on' else self.l.host
        self.repo = self.l.host if self.mode == 'on' or not remote else self.l.srv
        self.daemon = None
        if self.mode == 'bup':
            self.daemon = lab.start(w, self.l.srv, [b'bup', b'daemon'])
            self.daemon.aux['daemon'] = True
        # another repository as a source
        f = self.client.fs
        w.now = 20 * SEC # (the same on both sides)
        f.mkdirs(b'/x')
        for e in (['write', 'f', ['rand', 5, 3000]], ['write', 'g', ['text', 6, 40000]]):
            gen.apply_edit(f, b'/x', e)
        for a in (['-d', '/r2', 'init'], ['-d', '/r2', 'index', '/x'], ['-d', '/r2', 'save', '-d', '1500000000', '-n', 'main', '/x'],
                  ['-d', '/r2', 'save', '-d', '1500000100', '-n', 'main', '/x'], ['-d', '/r2', 'save', '-d', '1500000200', '-n', 'xsrc', '/x']):
            w.now = max(w.now, 40 * SEC)
            root_times(self.client)
            x = lab.bup(w, self.client, *[a_.encode() for a_ in a])
            if x.rc:
                raise SetupFailed(['x', a], x)

    def cmd(self, name, args, *, client=None, **kw):
        """name: the bup command; args after it."""
        client = client or self.client
        args = [enc(a) for a in args]
        name = name.encode()
        w = self.l.w
        if self.mode == 'on' and name in (b'save', b'split', b'restore', b'get', b'index'):
            p = lab.start(w, self.repo, [b'bup', b'on', b'srv', name, *args], **kw)
        elif self.mode == 'local' or name == b'index' or self.mode == 'on':
            p = lab.start(w, client if self.mode != 'on' else self.repo, [b'bup', name, *args], **kw)
        else:
            p = lab.start(w, client, [b'bup', name, b'-r', b'srv:/r' if self.mode == 'ssh' else b'bup://srv/r', *args], **kw)
        try:
            w.run(p)
            lab.settle(w)
        except SimHang as ex:
            raise Violation('hang', f'{self.mode}: bup {name.decode()} {[dec(a) for a in args]}: {ex}')
        return lab.result(p)

def root_times(h):
    # (part of every save)
    h.fs.root.mtime = h.fs.root.atime = h.fs.root.ctime = 1_500_000_000 * SEC

def norm(r):
    """What a repository holds, without commit ids."""
    res = {}
    for n, o in r.refs().items():
        if r.type(o) != b'commit':
            res[n] = (r.type(o), o.hex())
        else:
            res[n] = [(r.commit(c)['tree'].hex(), r.commit(c)['author_time'], len(r.commit(c)['parents'])) for c in r.history(o)]
    return res, {o for o, (t, c) in r.objs.items() if t != b'commit'}

def execute(plan, rec):
    rec.probe(plan['mode'])
    if 'deduplicate-writes' in plan['cfg']['srv_config'] + plan['cfg']['config']:
        rec.probe('no-dedup')
    a, b = Side(plan, False), Side(plan, True)
    sides = (a, b)
    fed = 0
    try:
        for n, op in enumerate(plan['ops']):
            k = op[0]
            now = max(s.l.w.now for s in sides) + 2 * SEC
            now -= now % SEC
            for s in sides:
                s.l.w.now = now
                for h in s.l.w.hosts.values():
                    h.fs.remove_tree(b'/tmp/out')
                    root_times(h)
            what = f'{n} {op[:1] + op[1:] if k != "edit" else k}'[:300]
            res = []
            date = str(1_600_000_000 + 1000 * n)
            fs = [s.client.fs for s in sides]
            if k == 'save' and not any(o[0] == 'index' for o in plan['ops'][:n]):
                continue
            for s in sides:
                w = G.world = s.l.w
                if k == 'edit':
                    for e in op[1]:
                        gen.apply_edit(s.client.fs, SRC, e)
                        w.now += 1_000_000
                elif k == 'index':
                    # bup on uses the client's default repository, as without it
                    res.append(s.cmd('index', ['/src']) if s.mode != 'on' else lab.bup(w, s.client, b'index', b'/src'))
                elif k == 'save':
                    rec.probe('save')
                    # (whether an unchanged large file stays in an unchanged directory depends on what the
                    # client knows of the repository's packs, and only suggestions tell a remote one)
                    opts = [o for o in op[2] if not o.startswith('--smaller') or not any(q[0] in ('save', 'local') for q in plan['ops'][:n])]
                    res.append(s.cmd('save', ['-d', date, '-n', op[1], *opts, '/src']))
                elif k == 'split':
                    names = []
                    rec.probe('split')
                    for j, spec in enumerate(op[2]):
                        s.client.fs.put(b'/tmp/in%d' % j, gen.content(spec))
                        names.append('/tmp/in%d' % j)
                    if s.mode == 'on' or len(names) > 1 or '--keep-boundaries' in op[1]:
                        res.append(s.cmd('split', ['-d', date, *op[1], *names]))
                    else:
                        res.append(s.cmd('split', ['-d', date, *op[1]], stdin=s.client.fs.read(b'/tmp/in0')))
                elif k == 'local':
                    o = op[1]
                    kw = {'stdin': gen.content(o[2]['stdin'])} if len(o) > 2 else {}
                    args = [enc(x) for x in o[1]]
                    if o[1][0] in ('save', 'split'):
                        args[1:1] = [b'-d', date.encode()]
                    # (a save at the repository's machine: of the same files)
                    if o[1][0] in ('save', 'index'):
                        if s.mode == 'local':
                            env = {}
                        else:
                            env = {b'BUP_DIR': b'/r'}
                            s.repo.fs.remove_tree(SRC)
                            copy_tree(s.client.fs, s.repo.fs, SRC)
                            root_times(s.repo)
                        idx = [b'-f', b'/tmp/otheridx']
                        if o[1][0] == 'save':
                            lab.bup(w, s.repo, b'index', *idx, b'/src')
                            args[1:1] = idx
                        else:
                            args[1:1] = idx
                    res.append(lab.bup(w, s.repo, *args, **kw))
                    if o[1][0] == 'gc':
                        rec.probe('gc-between')
                elif k == 'restore':
                    rec.probe('restore')
                    res.append(s.cmd('restore', ['-C', '/tmp/out', op[1]]))
                elif k == 'join':
                    rec.probe('join')
                    res.append(s.cmd('join', op[1]))
                elif k == 'get':
                    rec.probe('get')
                    m = [op[1], op[2]] if op[3] is None or op[1] == '--unnamed' else [op[1] + ':', op[2], op[3]]
                    res.append(s.cmd('get', ['-s', '/r2', *m]))
                elif k == 'init':
                    res.append(s.cmd('init', []))
                if w.harness_errors:
                    raise HarnessError(str(w.harness_errors[0]))
            if res:
                x, y = res
                if x.rc != y.rc and (x.rc == 0 or y.rc == 0):
                    raise Violation('different-status', f'{what}: exit {x.rc} locally, {y.rc} with {b.mode}: '
                                    f'{(x.err if x.rc else y.err)[-700:].decode("utf-8", "replace")}')
                if k in ('index', 'save') and x.rc:
                    raise Violation('command-failed', f'{what}: exit {x.rc}: {x.err[-600:].decode("utf-8", "replace")}')
                if x.rc:
                    rec.probe('failing')
                ox, oy = x.out, y.out
                if k in ('save', 'split') and '-c' in op[-2 if k == 'split' else 2]:
                    ox, oy = ox.count(b'\n'), oy.count(b'\n')
                if ox and x.rc == 0 and k != 'init':
                    rec.probe('stdout')
                if ox != oy and k not in ('init', 'local') and x.rc == 0:
                    raise Violation('different-output', f'{what}: {ox[-200:]!r} locally, {oy[-200:]!r} with {b.mode}')
                if k in ('save', 'split', 'get'):
                    if any(p_.endswith(b'.idx') for p_, i in b.client.fs.tree(b'/root')):
                        rec.probe('suggested')
            for s in sides:
                w = s.l.w
            ra, rb = [Repo(s.repo.fs) for s in sides]
            for r, s in ((ra, a), (rb, b)):
                if r.problems:
                    raise Violation('damaged', f'{what} ({s.mode}): {r.problems[0]}')
                must_complete(r, f'{what} ({s.mode})')
            na, oa = norm(ra)
            nb, ob = norm(rb)
            if na != nb:
                d = [dec(q) for q in sorted(set(na) | set(nb)) if na.get(q) != nb.get(q)]
                raise Violation('different-refs', f'{what}: {d}: {[na.get(enc(q)) for q in d][:2]} locally, {[nb.get(enc(q)) for q in d][:2]} with {b.mode}'[:900])
            if oa != ob:
                raise Violation('different-objects', f'{what}: {len(oa - ob)} objects only locally, {len(ob - oa)} only with {b.mode}')
            if k == 'restore':
                sa, sb = snapshot(a.client.fs, b'/tmp/out'), snapshot(b.client.fs, b'/tmp/out')
                if not op[1].endswith('/.'):
                    for q in sa, sb:
                        q.pop(b'', None) # (the output directory itself)
                if res[0].rc == 0:
                    d = diff_snap(sa, sb, ('local', b.mode))
                    if d:
                        raise Violation('different-restore', f'{what}: ' + '; '.join(d[:4]))
            rec.state((plan['mode'], k, op[1:2] if k != 'edit' else None, sorted(map(str, na.items()))))
            if k == 'save' and '--bwlimit=1M' in op[2] or k == 'split' and '--bwlimit=200k' in op[1]:
                rec.probe('bwlimit')
            if plan['two'] and k == 'save' and b.mode != 'on':
                # forget what the client knew, as another client would
                b.client.fs.remove_tree(b'/root/.cache')
                rec.probe('second-client')
    finally:
        for s in sides:
            G.world = s.l.w
            if s.daemon is not None and not s.daemon.dead:
                s.l.w.kill(s.daemon, 15)
    for s in sides:
        G.world = s.l.w
        rec.world(s.l.w)
        s.l.close()

def copy_tree(src, dst, top):
    """Same content, metadata and times."""
    done = {}
    dst.mkdirs(top)
    for p, i in src.tree(top):
        dn, _, name = p.rpartition(b'/')
        d = dst.lookup(dn or b'/')
        if p == top:
            done[id(i)] = dst.lookup(p)
        elif i.entries is not None:
            dst.mkdirs(p)
            done[id(i)] = dst.lookup(p)
        elif id(i) in done:
            dst.link(done[id(i)], d, name)
        else:
            j = done[id(i)] = dst.create(d, name, i.mode, rdev=i.rdev, target=i.target)
            if i.data is not None:
                j.data = bytearray(i.data)
    for p, i in src.tree(top):
        j = done[id(i)]
        for k in ('mode', 'uid', 'gid', 'mtime', 'atime', 'ctime', 'xattrs', 'attr'):
            if hasattr(i, k):
                setattr(j, k, getattr(i, k))
