"""A broken connection never yields a false success or a broken server repo."""

import struct, zlib

from .common import *
from .p04 import bad_packs, check_content, outcome
from .p11 import root_times

ID = 'P12'
RULE = ('A plan is a history of local and remote saves, splits and maintenance followed by a remote save, split, get, restore or join through ssh, bup daemon or '
        'bup on. The operation runs once undisturbed; then, each time from the same state, it is disturbed up to three times in a row: a client, ssh or '
        'server process is killed at a sampled system call, a machine loses power (with a sampled crash image), or the connection breaks after a sampled '
        'number of bytes in a sampled direction or at a sampled system call, losing data in flight; or a bit of an object on its way to the server flips. Every attempt must end, may only succeed with the complete '
        'result, and must leave refs complete at old or new values; afterwards, with garbage collection, removals, a reset of the server to an older state '
        'or a partly lost index cache in between, the same command must succeed completely. Distinct non-trivial: different (transport, operation, '
        'fault, phase, outcome) combinations.')
ASSUMPTIONS = ['git update-ref is atomic', 'a broken connection is noticed by both ends', 'data in flight when it breaks may be lost; of altered data only the content of objects sent is considered']
SHRINK = ['pre', 'pre.*.1', 'trial.faults']
PROBES = ['ssh', 'bup', 'on', 'save', 'split', 'get', 'join', 'restore', 'succeeded', 'failed', 'client-lost', 'server-lost', 'cut', 'completed-anyway',
          'flip', 'reset', 'gc-between', 'cache-lost', 'twice', 'cached-index']
TRIALS = 10

class Remote:
    """A lab whose commands use a repository on another machine."""
    def __init__(self, plan, l):
        self.l, self.mode = l, plan['mode']
        self.client, self.repo = (l.srv, l.host) if self.mode == 'on' else (l.host, l.srv)
        self.daemon = None
        self.start_daemon()

    def start_daemon(self):
        if self.mode == 'bup' and (self.daemon is None or self.daemon.dead):
            self.daemon = lab.start(self.l.w, self.l.srv, [b'bup', b'daemon'])
            self.daemon.aux['daemon'] = True
            d = self.daemon
            self.l.w.run_until(lambda: self.l.w.listeners or d.dead)

    def start(self, op):
        name, args = op[0].encode(), [enc(a) for a in op[1]]
        kw = {}
        if len(op) > 2 and op[2].get('stdin'):
            kw['stdin'] = gen.content(op[2]['stdin'])
        w = self.l.w
        if self.mode == 'on':
            if name == b'split': # (bup on doesn't forward standard input)
                self.client.fs.put(b'/tmp/in', gen.content(op[2]['stdin']))
                return lab.start(w, self.l.host, [b'bup', b'on', b'srv', name, *args, b'/tmp/in'])
            return lab.start(w, self.l.host, [b'bup', b'on', b'srv', name, *args], **kw)
        return lab.start(w, self.client, [b'bup', name, b'-r', b'srv:/r' if self.mode == 'ssh' else b'bup://srv/r', *args], **kw)

    def run(self, op):
        p = self.start(op)
        self.finish(p, op)
        return lab.result(p)

    def finish(self, p, op):
        w = self.l.w
        try:
            w.run(p)
            lab.settle(w)
        except SimHang as ex:
            raise Violation('hang', f'bup {op[0]} {op[1]}: {ex}')

    def local(self, host, op):
        kw = {'stdin': gen.content(op[2]['stdin'])} if len(op) > 2 and op[2].get('stdin') else {}
        return lab.bup(self.l.w, host, op[0].encode(), *self.l.args(op[1], host), **kw)

    def do(self, op):
        k = op[0]
        w = self.l.w
        if k == 'edit':
            for e in op[1]:
                gen.apply_edit(self.client.fs, SRC, e)
                w.now += 1_000_000
        elif k == 'sleep':
            w.now += op[1]
        elif k == 'sync':
            for h in w.hosts.values():
                h.fs.sync_all()
        elif k == 'remote':
            return self.run(op[1])
        elif k == 'client':
            return self.local(self.client, op[1])
        elif k == 'repo':
            return self.local(self.repo, op[1])

def plan(rng, tier, i):
    mode = ('ssh', 'bup', 'ssh', 'on')[i % 4]
    config = repo_config(rng)
    if rng.random() < .2:
        config += '[bup "server"]\n\tdeduplicate-writes = false\n'
    cfg = base_cfg(rng, srv=True)
    cfg['config'] = config if mode == 'on' else ''
    cfg['srv_config'] = config if mode != 'on' else ''
    cfg['frag'] = rng.choice(('none', 'mixed'))
    cfg['pipe_capacity'] = rng.choice((4096, 65536))
    cfg['latency'] = rng.choice((0, 1_000_000, 200_000_000))
    cfg['preempt'] = rng.choice((0, .02, .2))
    cfg['short_writes'] = rng.choice((0, 0, .2))
    g = treegen(rng, big=.15, maxsize=60000)
    kind = ('save', 'save', 'save', 'split', 'get', 'restore', 'join')[(i // 4) % 7]
    if mode == 'on' and kind == 'join':
        kind = 'save'
    pre = [['edit', g.edits(rng.randint(4, 14))], ['client', ['index', ['/src']]], ['remote', ['save', ['-n', 'main', '/src']]]]
    for _ in range(rng.randint(1, 5)):
        pre += rng.choice((
            [['edit', g.edits(rng.randint(1, 5))], ['sleep', 2 * SEC], ['client', ['index', ['/src']]], ['remote', ['save', ['-n', rng.choice(('main', 'b')), '/src']]]],
            [['edit', g.edits(2)], ['sleep', 2 * SEC], ['client', ['index', ['/src']]], ['client', ['save', ['-n', 'loc', '/src']]]],
            [['remote', ['split', ['-n', 'sp'], {'stdin': gen.rand_spec(rng, .3, 40000)}]]],
            [['repo', ['split', ['-n', 'here'], {'stdin': gen.rand_spec(rng, .3, 40000)}]]],
            [['repo', ['gc', ['--unsafe', '--threshold=0']]]],
            [['repo', ['midx', ['-f']]]],
            [['sync']]))
    pre.append(['sleep', 2 * SEC])
    if kind == 'save':
        pre += [['edit', g.edits(rng.randint(1, 6))], ['sleep', 2 * SEC], ['client', ['index', ['/src']]]]
        t = ['save', [*rng.choice(([], [], ['--bwlimit=100k'])), '-n', rng.choice(('main', 'new')), '/src']]
    elif kind == 'split':
        t = ['split', ['-n', rng.choice(('sp', 'new'))], {'stdin': gen.rand_spec(rng, .5, 100000)}]
    elif kind == 'get':
        pre += [['edit', g.edits(2)], ['sleep', 2 * SEC], ['client', ['index', ['/src']]], ['client', ['save', ['-n', 'loc', '/src']]]]
        t = ['get', ['-s', '/r', *rng.choice((['--ff', 'loc'], ['--append:', 'loc', 'main'], ['--replace:', 'loc', 'main'], ['--new-tag:', 'loc', '.tag/x']))]]
    elif kind == 'restore':
        t = ['restore', ['-C', '/tmp/out', rng.choice(('/main/latest/src/.', '/main/latest'))]]
    else:
        pre += [['remote', ['split', ['-n', 'sp'], {'stdin': gen.rand_spec(rng, .3, 60000)}]]]
        t = ['join', ['sp']]
    pre.append(['sync'])
    return {'cfg': cfg, 'mode': mode, 'kind': kind, 'pre': pre, 'target': t, 'tseed': rng.randrange(1 << 30)}

def sample(p):
    return {'mode': p['mode'], 'target': p['target'], 'cfg': {k: p['cfg'].get(k) for k in ('frag', 'latency', 'pipe_capacity', 'preempt')},
            'pre': [o if o[0] != 'edit' else ['edit', len(o[1])] for o in p['pre']]}

def pname(p):
    return p.name().split('[')[0]

def execute(plan, rec):
    mode, kind = plan['mode'], plan['kind']
    rec.probe(mode)
    rec.probe(kind)
    cfg = dict(plan['cfg'], trace=plan.get('trace'))
    l = Lab(cfg)
    s = Remote(plan, l)
    early = {n: h.fs.clone() for n, h in l.w.hosts.items()}
    for op in plan['pre']:
        r = s.do(op)
        if r is not None and r.rc and op[0] != 'repo':
            raise SetupFailed(op, r)
        if op[0] in ('remote', 'repo') and l.w.rng_clock.random() < .3:
            early = {n: h.fs.clone() for n, h in l.w.hosts.items()}
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    if s.daemon:
        l.w.kill(s.daemon, 15)
    start = {n: h.fs for n, h in l.w.hosts.items()}
    now = l.w.epoch + l.w.now
    rn, cn = s.repo.name, s.client.name
    for r in (Repo(start[rn]), Repo(start[cn])):
        must_complete(r, 'before the operation')
    out0 = outcome(Repo(start[rn]))
    if any(p.endswith(b'.idx') for p, i in start[cn].tree(b'/root')):
        rec.probe('cached-index')
    rec.world(l.w)
    l.close()

    def again(seed):
        l = Lab(dict(cfg, epoch=now + 5 * SEC, seed=seed), fs=start['host'].clone())
        l.use_fs('srv', start['srv'].clone())
        return l, Remote(plan, l)

    # undisturbed
    l, s = again(plan['tseed'])
    w = l.w
    calls, links = {}, []
    def count(p, call, path, info):
        n = pname(p)
        if p.argv[0] != b'git' and not p.aux.get('daemon'):
            calls[n, p.host.name] = calls.get((n, p.host.name), 0) + 1
    w.observers.append(count)
    w.link_hook = links.append
    r = s.run(plan['target'])
    w.observers.clear()
    if w.harness_errors:
        raise HarnessError(str(w.harness_errors[0]))
    if r.rc:
        # e.g. not fast-forward
        rec.probe('refused')
        if kind in ('save', 'split', 'restore', 'join'):
            raise SetupFailed(plan['target'], r)
        l.close()
        return
    rr = Repo(s.repo.fs)
    must_complete(rr, 'after the operation')
    good = outcome(rr)
    want = {'out': r.out if kind == 'join' else None, 'snap': snapshot(s.client.fs, b'/tmp/out') if kind == 'restore' else None}
    objects = sum(len(o) for o in rr.packs.values()) - sum(len(o) for o in Repo(start[rn]).packs.values()) if mode != 'on' and kind in ('save', 'split', 'get') else 0
    sizes = [[q.total for q in k.pipes] for k in links]
    rec.world(w)
    l.close()
    if not sizes:
        raise HarnessError('no connection was made')

    ctx = (plan, rec, again, early, out0, good, want)
    if plan.get('trial'):
        trial(*ctx, plan['trial'])
        return
    rng = subrng(plan['tseed'], 'trials')
    for n in range(TRIALS):
        faults = [rand_fault(rng, calls, sizes, rn, cn, objects) for _ in range(rng.choice((1, 1, 1, 2, 3)))]
        t = {'seed': rng.randrange(1 << 30), 'faults': faults,
             'between': rng.choice((None, None, None, 'gc', 'rm', 'reset', 'reset', 'cache', 'midx', 'edit'))}
        try:
            trial(*ctx, t)
        except Violation as ex:
            ex.pin = {'trial': t}
            raise

def rand_fault(rng, calls, sizes, rn, cn, objects):
    x = rng.random()
    f = {'delay': rng.choice((0, 0, 30 * SEC))}
    if x < .08 and objects:
        f.update(kind='flip', nth=near_end(rng, objects), byte=rng.randrange(300), bit=rng.randrange(8))
    elif x < .4:
        n, h = rng.choice(sorted(calls))
        if n == 'bup mux' and ('bup server', rn) in calls and rng.random() < .9: # (a known finding)
            n, h = 'bup server', rn
        f.update(kind='kill', prog=n, host=h, nth=near_end(rng, calls[n, h]), signal=rng.choice((9, 15, 1)))
    elif x < .6:
        n, h = rng.choice(sorted(calls))
        f.update(kind='power', prog=n, host=h, nth=near_end(rng, calls[n, h]), mode=rng.choice(('none', 'all', 'random', 'random')), seed=rng.randrange(1 << 30))
    elif x < .9:
        i = rng.randrange(len(sizes))
        j = rng.randrange(len(sizes[i]))
        f.update(kind='cut', link=i, pipe=j, after=near_end(rng, sizes[i][j] + 1))
    else:
        n, h = rng.choice(sorted(calls))
        f.update(kind='cutat', prog=n, host=h, nth=near_end(rng, calls[n, h]))
    return f

def near_end(rng, n):
    if rng.random() < .3:
        return max(0, n - 1 - int(rng.expovariate(1 / 15)))
    return rng.randrange(max(n, 1))

def trial(plan, rec, again, early, out0, good, want, t):
    rec.trials += 1
    l, s = again(t['seed'])
    w = l.w
    op = plan['target']
    kind = plan['kind']
    before = out0
    what, r = '', None
    try:
        for n, f in enumerate(t['faults']):
            s.client.fs.remove_tree(b'/tmp/out')
            fired = arm(w, s, f)
            p = s.start(op)
            r = None
            try:
                s.finish(p, op)
            finally:
                what = f'{f["kind"]} at {fired.get("where")}'
            w.faults.clear()
            w.link_hook = None
            w.links.clear()
            if w.harness_errors:
                raise HarnessError(str(w.harness_errors[0]))
            r = lab.result(p)
            if n:
                rec.probe('twice')
            for h, img in fired.get('images', {}).items():
                l.use_fs(h, img)
            rec.fault(f['kind'] if fired.get('where') else 'not-reached')
            rec.probe({'cut': 'cut', 'cutat': 'cut', 'flip': 'flip'}.get(f['kind'], 'client-lost' if f.get('host') == s.client.name else 'server-lost'))
            rr = Repo(s.repo.fs)
            try:
                got = outcome(rr)
            except (Bad, Missing) as ex:
                raise Violation('bad-ref', str(ex))
            must_complete(rr, 'after the failure')
            if bad_packs(rr):
                raise Violation('bad-pack', '; '.join(bad_packs(rr)[:3]))
            if r.rc == 0:
                rec.probe('succeeded')
                check_done(kind, rr, got, before, good, out0, want, s, r, 'exit status 0')
                if fired.get('where'):
                    rec.probe('completed-anyway')
            else:
                rec.probe('failed')
                for b in set(got) | set(before):
                    if got.get(b) != before.get(b) and not is_new(got.get(b), before.get(b), good.get(b), out0.get(b)):
                        raise Violation('ref-garbage', f'{dec(b)} is neither the old nor the new value')
                if kind == 'join' and not want['out'].startswith(r.out):
                    raise Violation('wrong-data', 'join printed data that is not in the file')
            rec.state(plan['mode'], kind, f['kind'], f.get('prog'), f.get('pipe'), r.rc, got == good, n)
            before = got
            s.start_daemon()
            w.now += 3 * SEC
        b = t['between']
        if b == 'gc':
            rec.probe('gc-between')
            must(s.local(s.repo, ['gc', ['--unsafe', '--threshold=0']]), 'gc')
        elif b == 'rm':
            heads = sorted(n for n in Repo(s.repo.fs).refs() if n.startswith(b'refs/heads/'))
            if kind in ('save', 'split') and heads:
                s.local(s.repo, ['rm', ['--unsafe', *[dec(n[11:]) for n in heads]]])
                must(s.local(s.repo, ['gc', ['--unsafe', '--threshold=0']]), 'gc')
        elif b == 'midx':
            must(s.local(s.repo, ['midx', ['-f']]), 'midx')
        elif b == 'reset' and kind in ('save', 'split'):
            rec.probe('reset')
            l.use_fs(s.repo.name, early[s.repo.name].clone())
        elif b == 'cache':
            rec.probe('cache-lost')
            fs = s.client.fs
            for q, i in sorted(fs.tree(b'/root/.cache')) if fs.lookup(b'/root/.cache') else ():
                if i.data is not None and w.rng_clock.random() < .4:
                    fs.remove_tree(q)
        elif b == 'edit' and kind == 'save':
            for e in (['write', 'edited', ['rand', 77, 3000]],):
                gen.apply_edit(s.client.fs, SRC, e)
            w.now += 2 * SEC
            must(s.local(s.client, ['index', ['/src']]), 'index')
        what += f', then {b}, then a retry'
        s.client.fs.remove_tree(b'/tmp/out')
        before = outcome(Repo(s.repo.fs))
        if kind == 'save' and b != 'edit' and any(f['kind'] == 'power' and f['host'] == s.client.name for f in t['faults']):
            # the index of an unsynchronised machine
            must(s.local(s.client, ['index', ['/src']]), 'index')
        r = s.run(op)
        rr = Repo(s.repo.fs)
        if kind == 'get' and before == good and r.rc != 0:
            pass # e.g. the tag exists
        elif r.rc != 0:
            raise Violation('retry-failed', f'exit {r.rc}: {r.err[-600:].decode("utf-8", "replace")}')
        must_complete(rr, 'after the retry')
        if bad_packs(rr):
            raise Violation('bad-pack', '; '.join(bad_packs(rr)[:3]))
        got = outcome(rr)
        if b in (None, 'gc', 'midx', 'cache'):
            check_done(kind, rr, got, before, good, out0, want, s, r, 'after the retry')
        if kind == 'save':
            n = op[1][op[1].index('-n') + 1].encode()
            check_content(rr, rr.refs()[b'refs/heads/' + n], s.client.fs, SRC)
        elif kind == 'split':
            n = op[1][op[1].index('-n') + 1]
            x = s.local(s.repo, ['join', [n]])
            if x.rc or x.out != gen.content(op[2]['stdin']):
                raise Violation('wrong-split', f'join afterwards: exit {x.rc}, {len(x.out)} bytes')
    except Violation as ex:
        ex.msg = f'{plan["mode"]} {op[0]}: {what}: {ex.msg}' + (f' [{r.err[-300:].decode("utf-8", "replace")}]' if r is not None and ex.cls not in ('retry-failed', 'hang') else '')
        raise
    if s.daemon is not None and not s.daemon.dead:
        w.kill(s.daemon, 15)
    rec.world(w)
    l.close()

def must(r, what):
    if r.rc:
        raise Violation('command-failed', f'{what} afterwards: exit {r.rc}: {r.err[-500:].decode("utf-8", "replace")}')

def is_new(got, before, good, out0):
    """Whether got is what the operation makes of before."""
    if good == out0:
        return False
    if isinstance(good, list) and isinstance(got, list):
        if good == got:
            return True
        add = good[:len(good) - len(out0 or [])]
        return got[:len(add)] == add and got[len(add):] == (before or [])
    return got == good

def check_done(kind, rr, got, before, good, out0, want, s, r, when):
    if kind == 'join':
        if r.out != want['out']:
            raise Violation('wrong-data', f'{when}, but join printed {len(r.out)} of {len(want["out"])} bytes')
        return
    if kind == 'restore':
        a, b = dict(want['snap']), snapshot(s.client.fs, b'/tmp/out')
        a.pop(b'', None), b.pop(b'', None)
        d = diff_snap(a, b, ('undisturbed', 'now'))
        if d:
            raise Violation('wrong-data', f'{when}, but ' + '; '.join(d[:3]))
        return
    if kind == 'get' and got == good:
        return
    for n in set(got) | set(good):
        if good.get(n) == out0.get(n):
            if got.get(n) != before.get(n):
                raise Violation('ref-garbage', f'{when}: {dec(n)} changed')
        elif not is_new(got.get(n), before.get(n), good.get(n), out0.get(n)):
            raise Violation('false-success', f'{when}, but {dec(n)} is not what the command leaves undisturbed')

def arm(w, s, f):
    fired = {}
    k = f['kind']
    def hook(link):
        link.error_delay = f['delay']
    if k == 'flip':
        n = [0]
        def alter(data):
            # a bit of the n-th object sent
            i = 0
            while not fired and i + 28 < len(data):
                size, _, crc = struct.unpack_from('!I20sI', data, i)
                if 24 < size < 1 << 24 and i + 4 + size <= len(data) and zlib.crc32(data[i + 28:i + 4 + size]) == crc:
                    if n[0] == f['nth']:
                        at = i + 28 + f['byte'] % min(size - 24, 300)
                        fired['where'] = f'byte {at - i} of object {f["nth"]}'
                        return data[:at] + bytes([data[at] ^ 1 << f['bit']]) + data[at + 1:]
                    n[0] += 1
                    i += 4 + size
                else:
                    i += 1
            return data
        def hook(link):
            link.error_delay = f['delay']
            for q in link.pipes:
                q.alter = alter
    elif k == 'cut':
        n = [0]
        def hook(link):
            link.error_delay = f['delay']
            if n[0] == f['link'] and f['pipe'] < len(link.pipes):
                q = link.pipes[f['pipe']]
                q.cut_after = f['after']
                def cut(_):
                    fired['where'] = f'{f["after"]} bytes of pipe {f["pipe"]}'
                    link.cut()
                q.on_cut = cut
            n[0] += 1
    else:
        def act(w, p, call, path):
            fired['where'] = f'{p.name()} {call} {path!r} #{f["nth"]}'
            if k == 'kill':
                w.kill(p, f['signal'])
            elif k == 'cutat':
                for x in w.links:
                    x.cut()
            elif k == 'power':
                h = p.host
                for x in w.links:
                    x.cut()
                fired['images'] = {h.name: h.fs.crash_image(subrng(f['seed'], 'image'), s.l.cfg.get('personality', 'posix'), f['mode'])}
                w.kill_host(h)
        w.faults.append(Named({'action': 'call', 'prog': f['prog'], 'host': f['host'], 'nth': f['nth']}, act))
    w.link_hook = hook
    return fired

class Named(Fault):
    def matches(self, w, p, call, path):
        return pname(p) == self.prog and p.host.name == self.host
