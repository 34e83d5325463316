"""Bandwidth limiting respects the limit and never stalls."""

from .common import *
from .p04 import check_content
from .p12 import Remote

ID = 'P22'
RULE = ('A plan is a split, save or get to a repository on another machine (ssh, bup daemon, bup on) with a sampled bandwidth limit, delays, buffer sizes, pauses of the '
        'server and of the input, and steps of the sender\'s clock (back and forth, seconds to years). The bytes accepted by the connection are recorded with the '
        'simulated time. Over any interval they must not exceed the limit times its length by more than a fixed burst (24 KiB); the command must finish within the '
        'time that the limit needs for the data plus the time of an unlimited run and the pauses; the result must equal the input. '
        'Distinct non-trivial: different (transport, operation, limit, volume, disturbance) combinations with more data than the burst.')
ASSUMPTIONS = ['a burst of six transmission blocks is allowed (blocks and buffers in bup and Python)', 'reading the steady clock and sleeping are exact up to scheduling']
SHRINK = ['jumps', 'stalls', 'pauses']
PROBES = ['ssh', 'bup', 'on', 'split', 'save', 'get', 'stepped-back', 'stepped-forward', 'stalled', 'paused-input', 'throttled']
BURST = 24 * 1024

def plan(rng, tier, i):
    mode = ('ssh', 'bup', 'on')[i % 3]
    kind = ('split', 'save', 'get', 'split')[(i // 3) % 4]
    config = ''
    if rng.random() < .3:
        config += '[pack]\n\tpackSizeLimit = %d\n' % rng.choice((20000, 100000))
    cfg = {'seed': rng.randrange(1 << 30), 'config': config if mode == 'on' else '', 'srv_config': config if mode != 'on' else '', 'srv': True,
           'frag': rng.choice(('none', 'mixed')), 'pipe_capacity': rng.choice((4096, 65536, 1 << 20)),
           'latency': rng.choice((0, 1_000_000, 50_000_000)), 'preempt': rng.choice((0, .02, .2)), 'short_writes': rng.choice((0, 0, .2))}
    size = rng.choice((60000, 150000, 150000, 300000))
    files = [['write', 'f%d' % k, [rng.choice(('rand', 'rand', 'text')), rng.randrange(1000), rng.randint(1000, size)]] for k in range(rng.randint(1, 4))]
    p = {'cfg': cfg, 'mode': mode, 'kind': kind, 'limit': rng.choice(('4000', '20k', '20k', '64k', '300k', '1M', '33333')),
         'data': ['rand', rng.randrange(1000), size], 'files': files, 'tseed': rng.randrange(1 << 30),
         'jumps': [], 'stalls': [], 'pauses': []}
    if rng.random() < .5:
        p['jumps'] = [[rng.random(), rng.choice((-1, -1, 1)) * rng.choice((1, 60, 3600, 86400 * 365 * 3)) * SEC + rng.randrange(SEC)] for _ in range(rng.randint(1, 5))]
    if rng.random() < .3:
        p['stalls'] = [[rng.random(), rng.choice((1, 20, 300)) * SEC] for _ in range(rng.randint(1, 2))]
    if kind == 'split' and mode != 'on' and rng.random() < .3:
        p['pauses'] = [[rng.random(), rng.choice((1, 20, 300)) * SEC] for _ in range(rng.randint(1, 3))]
    return p

def sample(p):
    return {k: p[k] for k in ('mode', 'kind', 'limit', 'jumps', 'stalls', 'pauses', 'data')}

def parse(s):
    return int(s[:-1]) * {'k': 1024, 'M': 1 << 20}[s[-1]] if s[-1] in 'kM' else int(s)

class Slow:
    """Feeds the command's standard input, with pauses."""
    def __init__(self, data, pauses):
        self.data = data
        self.at = sorted([int(f * len(data)), ns] for f, ns in pauses)
    def __call__(self, p):
        from sim import programs
        from sim import simposix as X
        w = G.world
        pos = 0
        for a, ns in self.at + [[len(self.data), 0]]:
            try:
                programs.put(1, self.data[pos:a])
            except BrokenPipeError:
                return 1
            pos = a
            if ns:
                w.block(p, None, until=w.now + ns, on='pause')
        return 0

def run(plan, rec, limit, steps=None):
    """Returns (lab, elapsed ns, transmissions, steps of the sender, what went wrong)."""
    mode, kind = plan['mode'], plan['kind']
    l = Lab(dict(plan['cfg'], trace=plan.get('trace') if limit else None))
    w = l.w
    for e in plan['files']:
        gen.apply_edit((l.srv if mode == 'on' else l.host).fs, SRC, e)
    w.now += 3 * SEC
    R = Remote(plan, l)
    if kind in ('save', 'get'):
        lab.ok(lab.bup(w, R.client, 'index', '/src'), 'index')
    if kind == 'get':
        lab.ok(lab.bup(w, R.client, 'save', '-n', 'loc', '/src'), 'save')
    bw = ['--bwlimit=' + plan['limit']] if limit else []
    if kind == 'split':
        op = ['split', [*bw, '-n', 'sp'], {'stdin': plan['data']}]
    elif kind == 'save':
        op = ['save', [*bw, '-n', 'main', '/src']]
    else:
        op = ['get', [*(['--bwlimit', plan['limit']] if limit else []), '-s', '/r', '--ff', 'loc']]
    logs = []
    def hook(link):
        q = link.pipes[1 if mode == 'on' else 0]
        q.log = []
        logs.append(q.log)
    w.link_hook = hook
    start = w.now
    count = {'c': 0, 's': 0}
    jumps = {int(f * steps['c']): ns for f, ns in plan['jumps']} if limit else {}
    stalls = {int(f * steps['s']): ns for f, ns in plan['stalls']} if limit else {}
    stalling = [0]
    def actor(p, call, path):
        k = 'c' if p.host is R.client else 's'
        n = count[k]
        count[k] += 1
        if k == 'c' and n in jumps:
            R.client.clock_offset += jumps[n]
            w.trace('clock', p, jumps[n])
            rec.probe('stepped-back' if jumps[n] < 0 else 'stepped-forward')
            rec.fault('clock-step')
        if k == 's' and n in stalls:
            rec.probe('stalled')
            rec.fault('stall')
            stalling[0] += stalls[n]
            w.block(p, None, until=w.now + stalls[n], on='stall')
    w.env_actor = actor
    if kind == 'split' and mode != 'on' and plan['pauses'] and limit:
        from sim.kernel import Pipe, PipeR, PipeW
        w.programs[b'feeder'] = Slow(gen.content(plan['data']), plan['pauses'])
        q = Pipe(4096)
        stalling[0] += sum(ns for _, ns in plan['pauses'])
        rec.probe('paused-input')
        p = lab.start(w, R.client, [b'bup', b'split', b'-r', b'srv:/r' if mode == 'ssh' else b'bup://srv/r', *[enc(x) for x in op[1]]], stdin=PipeR(q))
        lab.start(w, R.client, [b'feeder'], out=PipeW(q))
    else:
        p = R.start(op)
    try:
        w.run(p)
    except SimHang as ex:
        raise Violation('hang', f'{mode} {op[0]} {op[1]}: {ex}')
    t = w.now - start
    w.env_actor = None
    w.link_hook = None
    lab.settle(w)
    r = lab.result(p)
    if w.harness_errors:
        raise HarnessError(str(w.harness_errors[0]))
    if r.rc:
        raise Violation('failed', f'{mode} {op[0]} {op[1]} exited {r.rc}: {r.err[-500:].decode("utf-8", "replace")}')
    rr = Repo(R.repo.fs)
    must_complete(rr, f'{mode} {op[0]} {op[1]}')
    ref = b'refs/heads/' + {'split': b'sp', 'save': b'main', 'get': b'loc'}[kind]
    tree = rr.commit(rr.refs()[ref])['tree']
    if kind != 'split':
        check_content(rr, rr.refs()[ref], R.client.fs, SRC, at='src')
    out = {'l': l, 'time': t, 'log': [x for g in logs for x in g], 'steps': dict(count), 'stall': stalling[0], 'tree': tree, 'op': op}
    return out

def execute(plan, rec):
    mode, kind = plan['mode'], plan['kind']
    rec.probe(mode)
    rec.probe(kind)
    a = run(plan, rec, False)
    a['l'].close()
    b = run(plan, rec, True, a['steps'])
    rec.world(b['l'].w)
    b['l'].close()
    L = parse(plan['limit'])
    what = f'{mode} {kind} at {L} bytes/s, clock steps {[j[1] / 1e9 for j in plan["jumps"]]}'
    if b['tree'] != a['tree'] and kind != 'save': # (a save also records directory times)
        raise Violation('different', f'{what}: another tree than without a limit')
    log = b['log']
    total = sum(n for _, n in log)
    level, last, worst = 0, log[0][0] if log else 0, 0
    for t, n in log:
        level = max(0, level - L * (t - last) / 1e9) + n
        last = t
        worst = max(worst, level)
        if level > BURST:
            raise Violation('too-fast', f'{what}: {int(level)} bytes more than the limit allows at {t} ({n} bytes written then, {total} in all)')
    if total > 2 * BURST:
        rec.probe('throttled')
        rec.state(mode, kind, plan['limit'], total >> 14, len(plan['jumps']), len(plan['stalls']), len(plan['pauses']))
    bound = 3 * a['time'] + int(total / L * 1.03e9) + b['stall'] + 10 * SEC
    if b['time'] > bound:
        raise Violation('stalled', f'{what}: {total} bytes took {b["time"] / 1e9:.1f} s instead of at most {bound / 1e9:.1f} s')
    rec.trials += 1
