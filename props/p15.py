"""Multiplexed remote output arrives intact."""

import json as _json
import struct

from .common import *
from sim import programs
from sim import simposix as X
from sim.kernel import Pipe, PipeR, PipeW, SinkDesc, SourceDesc, ENOSPC, EPIPE

ID = 'P15'
RULE = ('A plan is a schedule of writes (sizes up to several packets, pauses, any interleaving of the two outputs) by a program that is run under bup mux, whose '
        'output goes through a fragmented, delayed connection to bup demux, to bup on, or to the client\'s connection class (random sequences of read, '
        'readline, has_input and write). Outputs must be equal byte for byte and the exit status preserved. With a connection that breaks after any number '
        'of bytes, a process killed at a sampled system call, a failing or full output, or a mutated or generated packet stream (wrong magic, '
        'lengths, channels, truncation), the outputs must be what a reference decoder gives for the stream, and a success status is only allowed for a complete one. '
        'Distinct non-trivial: different (kind, shape of the stream, fault, outcome) combinations.')
ASSUMPTIONS = ['payload bytes are not altered by the connection', 'the content of a terminating packet (none is ever sent) is unspecified']
SHRINK = ['chunks', 'packets', 'ops']
PROBES = ['pipeline', 'on', 'conn', 'stream', 'cut', 'killed', 'full-output', 'malformed', 'valid-stream', 'signalled', 'big-packet', 'noise', 'input-error']
LEVEL = 'seeded search against a reference decoder'

MAX = 128 * 1024

def chunk(rng, big):
    n = rng.choice((0, 1, 2, 5, 6, 7, 100, 1023, 1024, 1025, 4096, 5000))
    if big and rng.random() < .3:
        n = rng.choice((65536, MAX - 1, MAX, MAX + 1, 2 * MAX + 3, 300000))
    return [rng.choice((1, 1, 2)), n, rng.choice((0, 0, 0, 1000, 3_000_000, 700_000_000)), rng.choice(('r', 'r', 'n', 'm'))]

def plan(rng, tier, i):
    kind = ('pipeline', 'stream', 'on', 'conn', 'stream', 'pipeline')[i % 6]
    big = rng.random() < .4
    frag = rng.choice(('none', 'mixed', 'mixed', 'tiny')) if not big else rng.choice(('none', 'mixed'))
    cfg = {'seed': rng.randrange(1 << 30), 'preempt': rng.choice((0, .05, .3, .6)), 'frag': frag,
           'pipe_capacity': rng.choice((4096, 65536, 1 << 20)), 'latency': rng.choice((0, 100_000, 20_000_000)),
           'short_writes': rng.choice((0, 0, .3)), 'srv': kind == 'on'}
    p = {'cfg': cfg, 'kind': kind, 'chunks': [chunk(rng, big) for _ in range(rng.randint(0, 14))],
         'code': rng.choice((0, 0, 0, 1, 2, 7, 99, 255, -9, -15))}
    if kind in ('pipeline', 'on', 'conn') and rng.random() < .5:
        x = rng.random()
        if x < .45:
            p['fault'] = ['cut', rng.random()]
        elif x < .75 and kind != 'conn':
            p['fault'] = ['kill', rng.choice({'pipeline': ('bup mux', 'bup demux', 'emit'),
                                              'on': ('bup mux', 'bup demux', 'ssh', 'bup on', 'bup on--server', 'emit')}[kind]), int(rng.random() ** 2 * 300)]
        elif kind != 'conn':
            p['fault'] = ['full', rng.choice((1, 2)), rng.random()]
    if kind == 'conn':
        p['ops'] = [rng.choice((['line'], ['read', rng.choice((1, 2, 3, 100, 5000, 70000, 200000))], ['has'], ['write', rng.choice((0, 1, 500, 9000))]))
                    for _ in range(rng.randint(1, 25))]
    if kind == 'stream':
        pk = []
        for _ in range(rng.randint(0, 8)):
            x = rng.random()
            n = chunk(rng, big)[1]
            pk.append([rng.choice((1, 2)), min(n, MAX), 'r'])
        if rng.random() < .8:
            pk.append([3, 0, 'r'])
        for _ in range(rng.choice((0, 0, 0, 1, 2))): # malformed ones
            pk.insert(rng.randint(0, len(pk)), [rng.choice((0, 1, 2, 4, 5, 66, 255)), rng.choice((0, 5, 100, MAX, MAX + 1, 1 << 20, (1 << 32) - 1)), 'r'])
        p['packets'] = pk
        p['noise'] = [rng.choice((0, 0, 1, 3, 40, 3000)), rng.choice((0, 0, 1, 1500))]
        p['magic'] = rng.choice(('BUPMUX',) * 8 + ('BUPMU', 'BUPBUPMUX', 'BUBUPMUXBUPMUX', ''))
        p['cut'] = rng.choice((None, None, rng.random(), rng.random()))
        p['error'] = rng.random() < .15
    return p

def sample(p):
    return {k: p[k] for k in p if k != 'cfg'}

def data(seed, n, how, k):
    r = subrng(seed, 'emit', k)
    if how == 'n':
        return (b'line %d\n' % k * (n // 6 + 1))[:n]
    b = bytearray(r.randbytes(n))
    if how == 'm':
        for _ in range(n // 50 + 1):
            o = r.randrange(n + 1)
            w = r.choice((b'BUPMUX', b'\0\0\0\0\3', b'\0\0\0\0\1', b'\0\0\1\0\2'))
            b[o:o + len(w)] = w
    return bytes(b[:n])

def content(seed, chunks, fd):
    return b''.join(data(seed, n, how, k) for k, (f, n, _, how) in enumerate(chunks) if f == fd)

def emit(p):
    """The program that is run remotely."""
    w = G.world
    spec = _json.loads(p.argv[-1])
    for k, (fd, n, sleep, how) in enumerate(spec['chunks']):
        if sleep:
            w.block(p, None, until=w.now + sleep, on='sleep')
        try:
            programs.put(fd, data(spec['seed'], n, how, k))
        except BrokenPipeError:
            return 141
    if spec['code'] < 0:
        w.kill(p, -spec['code'])
    return spec['code']

def install(l):
    bup = l.w.programs[b'bup']
    l.w.programs[b'emit'] = emit
    def prog(p):
        if p.argv[1:2] == [b'help'] and p.argv[2:] and p.argv[2].startswith(b'{'):
            p.argv = [b'emit', p.argv[2]]
            return emit(p)
        return bup(p)
    l.w.programs[b'bup'] = prog

def decode(s):
    """Reference decoder: (complete, stdout, stderr); complete None: unspecified."""
    out, errs = [], []
    i = s.find(b'BUPMUX')
    if i < 0:
        return False, b'', s
    errs.append(s[:i])
    i += 6
    while True:
        if len(s) - i < 5:
            return False, b''.join(out), b''.join(errs)
        n, c = struct.unpack('!IB', s[i:i + 5])
        i += 5
        if n > MAX or c not in (1, 2, 3):
            return False, b''.join(out), b''.join(errs)
        if c == 3:
            errs.append(s[i:])
            return (True if n == 0 else None), b''.join(out), b''.join(errs)
        b = s[i:i + n]
        if c == 1:
            out.append(b)
        if len(b) < n:
            return False, b''.join(out), b''.join(errs)
        if c == 2:
            errs.append(b)
        i += n

def delta(got, want):
    n = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
    return f'{len(got)} bytes instead of {len(want)}, first difference at {n}'

class Lost(Exception):
    pass

def outputs(what, r, out, errs, exact):
    """With exact, the outputs are complete; otherwise nothing but a part of them is there."""
    if exact:
        if r.out != out:
            raise Violation('stdout', f'{what}: standard output: {delta(r.out, out)}')
        if r.err != errs:
            raise Violation('stderr', f'{what}: standard error: {delta(r.err, errs)}: {r.err[-300:]!r}')
    elif not out.startswith(r.out):
        raise Violation('stdout', f'{what}: standard output is not a prefix of what was sent: {delta(r.out, out)}')

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], trace=plan.get('trace')), init=False)
    install(l)
    try:
        {'pipeline': pipeline, 'stream': stream, 'on': on, 'conn': conn}[plan['kind']](plan, rec, l)
    except SimHang as ex:
        raise Violation('hang', f'{plan["kind"]} {plan.get("fault")}: {ex}')
    rec.probe(plan['kind'])
    rec.world(l.w)
    l.close()

def expectations(plan, rec):
    c = plan['chunks']
    if any(x[1] > MAX for x in c):
        rec.probe('big-packet')
    if plan['code'] < 0:
        rec.probe('signalled')
    s = plan['cfg']['seed']
    return content(s, c, 1), content(s, c, 2)

def spec_arg(plan):
    return _json.dumps({'seed': plan['cfg']['seed'], 'chunks': plan['chunks'], 'code': plan['code']})

def faults(plan, rec, l, pipe, nbytes, sinks):
    f = plan.get('fault')
    if not f:
        return
    if f[0] == 'cut':
        k = int(f[1] * (nbytes + 1))
        if plan['kind'] == 'on':
            def hook(link):
                q = link.pipes[-1]
                q.cut_after = k
                q.on_cut = lambda q: link.cut()
            l.w.link_hook = hook
        else:
            pipe.cut_after = k
            pipe.on_cut = lambda q: q.brk(l.w.rng_frag)
        rec.fault('connection-cut')
    elif f[0] == 'kill':
        # (exactly this program, not one that shares a prefix with it)
        class Exact(Fault):
            def matches(self, w, p, call, path):
                return p.name() == f[1] and super().matches(w, p, call, path)
        l.w.faults.append(Exact({'nth': f[2], 'action': 'kill'}))
    elif f[0] == 'full':
        d = sinks[f[1]]
        d.limit = int(f[2] * 3000) if f[2] < .5 else int(f[2] * nbytes)
        d.limit_errno = ENOSPC

def framed(plan):
    """About how long the framed stream is."""
    return sum(n + 5 * (n // 1000 + 1) for _, n, _, _ in plan['chunks']) + 11

def pipe_for(plan, l):
    pipe = Pipe(plan['cfg']['pipe_capacity'])
    lat = plan['cfg']['latency']
    if lat:
        rng = l.w.rng_frag
        pipe.latency = lambda: int(rng.expovariate(1) * lat)
    return pipe

def pipeline(plan, rec, l):
    out, errs = expectations(plan, rec)
    pipe = pipe_for(plan, l)
    sinks = {1: SinkDesc(), 2: SinkDesc()}
    faults(plan, rec, l, pipe, framed(plan), sinks)
    m = lab.start(l.w, l.host, [b'bup', b'mux', b'--', b'emit', spec_arg(plan)], out=PipeW(pipe))
    d = lab.start(l.w, l.host, [b'bup', b'demux'], stdin=PipeR(pipe), out=sinks[1], err=sinks[2])
    l.w.run_until(lambda: m.dead and d.dead)
    l.w.faults.clear()
    lab.settle(l.w)
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    rm, rd = lab.result(m), lab.result(d)
    f = plan.get('fault')
    hit = outcome(rec, plan, l, pipe, sinks)
    what = f'mux | demux, {f if hit else "no fault"}'
    rec.state('pipeline', f[0] if hit else None, rm.rc, rd.rc, len(plan['chunks']), pipe.total.bit_length())
    if not hit:
        if rd.rc:
            raise Violation('demux-failed', f'{what}: demux exited {rd.rc}: {rd.err[-300:]!r}')
        check_status(what, plan['code'], rm.rc)
        outputs(what, rd, out, errs, True)
        if rm.err:
            raise Violation('stderr', f'{what}: mux wrote {rm.err[-300:]!r} to its standard error')
        return
    if hit and f[:2] == ['kill', 'emit']:
        # its output ends where it was killed; all that was written arrives
        if rd.rc or rm.rc == 0:
            raise Violation('status', f'{what}: mux exited {rm.rc}, demux {rd.rc}')
    if rd.rc == 0 and not (f[:2] == ['kill', 'emit']):
        outputs(what + ', demux succeeded', rd, out, errs, True)
    else:
        outputs(what, rd, out, errs, False)

def outcome(rec, plan, l, pipe, sinks):
    """Did the fault happen?"""
    f = plan.get('fault')
    if not f:
        return False
    if f[0] == 'cut':
        hit = pipe.broken if pipe is not None else any(k.broken for k in l.w.links)
        rec.probe('cut') if hit else None
        return hit
    if f[0] == 'kill':
        hit = bool(l.w.fault_counts.get('kill'))
        if hit:
            rec.probe('killed')
            rec.fault('process-kill')
        return hit
    d = sinks[f[1]]
    hit = d.limit_hit
    if hit:
        rec.probe('full-output')
        rec.fault('full-output')
    return hit

def check_status(what, code, rc):
    if (code >= 0 and rc != code) or (code < 0 and rc == 0):
        raise Violation('status', f'{what}: the program exited with {code}, but bup with {rc}')

def on(plan, rec, l):
    out, errs = expectations(plan, rec)
    sinks = {1: SinkDesc(), 2: SinkDesc()}
    faults(plan, rec, l, None, framed(plan), sinks)
    p = lab.start(l.w, l.host, [b'bup', b'on', b'srv', b'help', spec_arg(plan)], out=sinks[1], err=sinks[2])
    l.w.run(p)
    l.w.faults.clear()
    lab.settle(l.w)
    r = lab.result(p)
    f = plan.get('fault')
    hit = outcome(rec, plan, l, None, sinks)
    what = f'bup on, {f if hit else "no fault"}'
    rec.state('on', f[0] if hit else None, r.rc, len(plan['chunks']), len(out).bit_length())
    if not hit:
        check_status(what, plan['code'], r.rc)
        outputs(what, r, out, errs, True)
        return
    if f[:2] == ['kill', 'emit']:
        if r.rc == 0:
            raise Violation('status', f'{what}: exited 0')
        outputs(what, r, out, errs, False)
    elif r.rc == 0:
        if plan['code']:
            raise Violation('status', f'{what}: the program exited with {plan["code"]}, but bup with 0')
        outputs(what + ', exited 0', r, out, errs, True)
    else:
        outputs(what, r, out, errs, False)

def stream(plan, rec, l):
    seed = plan['cfg']['seed']
    a, z = plan['noise']
    s = data(seed, a, 'n', 1000) + plan['magic'].encode()
    for k, (c, n, how) in enumerate(plan['packets']):
        s += struct.pack('!IB', n, c)
        s += data(seed, min(n, 300000), how, k)
    s += data(seed, z, 'r', 1001)
    full = len(s)
    if plan['cut'] is not None:
        s = s[:int(plan['cut'] * (len(s) + 1))]
    complete, out, errs = decode(s)
    if a or z:
        rec.probe('noise')
    fail = len(s) if plan['error'] else None
    src = SourceDesc(s, fail_at=fail)
    r = lab.run(l.w, l.host, [b'bup', b'demux'], stdin=src)
    what = f'demux of {[plan["noise"], plan["magic"], plan["packets"]]} ({len(s)} of {full} bytes)' + (', then EIO' if plan['error'] else '')
    rec.state('stream', complete, tuple((c, n.bit_length()) for c, n, _ in plan['packets'])[:6], plan['magic'], plan['cut'] is not None, plan['error'])
    if plan['error']:
        rec.probe('input-error')
        rec.fault('err-EIO')
        complete = False
        if b'BUPMUX' not in s:
            errs = errs[:-6] # (may be the start of the magic)
    if complete:
        rec.probe('valid-stream')
        if r.rc:
            raise Violation('refused', f'{what}: a valid stream makes demux exit {r.rc}: {r.err[-400:]!r}')
        outputs(what, r, out, errs, True)
    else:
        rec.probe('malformed')
        if complete is False and r.rc == 0:
            raise Violation('accepted', f'{what}: demux exits 0 for a stream that is malformed or cut short')
        outputs(what, r, out, errs, False)
        if not r.err.startswith(errs) and complete is False:
            raise Violation('stderr', f'{what}: the error output before the fault is not there: {delta(r.err, errs)}')

def conn(plan, rec, l):
    out, errs = expectations(plan, rec)
    pipe = pipe_for(plan, l)
    back = SinkDesc()
    faults(plan, rec, l, pipe, framed(plan), None)
    m = lab.start(l.w, l.host, [b'bup', b'mux', b'--', b'emit', spec_arg(plan)], out=PipeW(pipe))
    got, sent = [], []
    def client(load):
        helpers = load('bup.helpers')
        import io
        o = io.BytesIO()
        pos = 0
        with helpers.DemuxConn(0, o) as c:
            for k, op in enumerate(plan['ops']):
                if op[0] == 'line':
                    b = c.readline()
                    e = out.find(b'\n', pos)
                    want = out[pos:e + 1] if e >= 0 else out[pos:]
                elif op[0] == 'read':
                    b = c.read(op[1])
                    want = out[pos:pos + op[1]]
                elif op[0] == 'has':
                    if c.has_input() and pos >= len(out):
                        raise Violation('has-input', f'has_input() is true after all {pos} bytes were read')
                    continue
                else:
                    b = want = b''
                    x = data(1, op[1], 'r', k)
                    c.write(x)
                    sent.append(x)
                if b != want:
                    got.append((k, op, pos, b, want))
                    return
                pos += len(b)
            while True:
                b = c.readline()
                if not b:
                    break
                e = out.find(b'\n', pos)
                want = out[pos:e + 1] if e >= 0 else out[pos:]
                if b != want:
                    got.append(('end', 'line', pos, b, want))
                    return
                pos += len(b)
            if pos != len(out):
                got.append(('end', 'eof', pos, b'', out[pos:]))
            if c.has_input():
                raise Violation('has-input', 'has_input() is true at the end')
        if o.getvalue() != b''.join(sent):
            raise Violation('written', 'what was written to the connection is not what arrived')
        return 'done'
    p = lab.start(l.w, l.host, [b'harness'], stdin=PipeR(pipe))
    p.aux['fn'] = client
    l.w.run_until(lambda: m.dead and p.dead)
    lab.settle(l.w)
    r = lab.result(p)
    hit = outcome(rec, plan, l, pipe, None)
    rec.state('conn', hit, r.rc, tuple(o[0] for o in plan['ops'])[:6], len(out).bit_length())
    what = f'client connection, {plan.get("fault") if hit else "no fault"}'
    if isinstance(r.uncaught, Violation):
        raise r.uncaught
    if got:
        k, op, pos, b, want = got[0]
        raise Violation('read', f'{what}: step {k} {op} at {pos}: {delta(b, want)}')
    done = p.aux.get('value') == 'done'
    if not hit and not done:
        raise Violation('read', f'{what}: reading failed: {r.err[-400:]!r}')
    if not hit and r.err != errs:
        raise Violation('stderr', f'{what}: standard error: {delta(r.err, errs)}')
