"""Splitting depends only on the data, and joining restores it."""

from .common import *
from .p12 import Remote
from sim import programs
from sim.kernel import Pipe, PipeR, PipeW, SinkDesc, SourceDesc, ENOSPC

ID = 'P17'
RULE = ('A plan is a list of input files, splitting options and repository settings. They are split from plain files into a local repository, and then in other ways: through a '
        'fragmented standard input, a pipe with a slow writer, files whose reads are short, as git objects (--git-ids), with other limits on packs, into a remote repository over '
        'fragmented connections. Ids, commit and tree ids must be the same, all chunks must make up the input, and a split that starts at a chunk boundary must give the '
        'remaining chunks. What was split is joined (by tree, commit, branch, list of blobs, locally, remotely, to a file) and restored and must be the input. With a failing read, '
        'an input that is missing, a full output or a connection that is cut, an exit status of 0 is only allowed with the complete result. '
        'Distinct non-trivial: different (mode, way, options, number of chunks, fault, outcome) combinations.')
ASSUMPTIONS = ['the same splitting settings on both machines']
SHRINK = ['files', 'ways', 'joins']
PROBES = ['stdin', 'pipe', 'short', 'ids', 'ssh', 'bup', 'on', 'join-local', 'join-remote', 'join-list', 'join-file', 'restored', 'suffix', 'big', 'split-fault', 'join-fault',
          'failed', 'keep-boundaries', 'copy', 'many-chunks', 'empty']
LEVEL = 'seeded search against a reference execution and the input itself'

def plan(rng, tier, i):
    big = i % 12 == 5
    config = '[bup "split"]\n\tfiles = legacy:%d\n' % rng.choice((13, 13, 13, 14, 15, 17, 21)) if rng.random() < .7 or big else ''
    if big:
        config = '[bup "split"]\n\tfiles = legacy:%d\n' % rng.choice((17, 19, 21))
    if rng.random() < .3:
        config += '[pack]\n\tpackSizeLimit = %d\n' % rng.choice((3000, 30000, 200000))
    frag = rng.choice(('none', 'mixed', 'mixed', 'tiny')) if not big else rng.choice(('none', '1000000', '65536'))
    cfg = {'seed': rng.randrange(1 << 30), 'config': config, 'srv_config': config, 'srv': True, 'frag': frag, 'preempt': rng.choice((0, .05, .3)),
           'pipe_capacity': rng.choice((4096, 65536, 1 << 20)), 'latency': rng.choice((0, 100_000, 20_000_000)), 'short_writes': rng.choice((0, .2))}
    if big:
        cfg['pipe_capacity'] = 1 << 20
    m = 120000 if frag != 'tiny' else 9000
    files = [gen.rand_spec(rng, .4 if m > 9000 else 0, m) for _ in range(rng.choice((1, 1, 1, 2, 3, 5)))]
    if rng.random() < .25 and not big and frag != 'tiny':
        files.append(rng.choice((['zero', 0, rng.choice((32768, 65536, 40000, 98304))], files[0])))
    if big:
        files = [[rng.choice(('rand', 'rep', 'zero')), rng.randrange(50), 8 * (1 << 20) - rng.randrange(70000)], ['rand', rng.randrange(50), rng.randrange(1, 3 << 20)]]
        if rng.random() < .3:
            files[0][2] = 8 * (1 << 20)
    opts = []
    if rng.random() < .35 and len(files) > 1:
        opts.append('--keep-boundaries')
    if rng.random() < .25:
        opts.append('--fanout=%d' % rng.choice((2, 4, 16, 64, 128)))
    ways = []
    for _ in range(rng.randint(2, 4) if not big else 2):
        way = rng.choice(('stdin', 'pipe', 'short', 'ids', 'ids', 'ssh', 'bup', 'on', 'files')) if not big else rng.choice(('stdin', 'pipe', 'ids', 'ids', 'ssh'))
        mode = rng.choice((['-n', 'new'], ['-t'], ['-b'], ['-c'], ['-t', '-c'], ['-n', 'new', '-t'], ['--copy'], ['--noop', '-b'], ['--noop', '-t']))
        extra = []
        if mode[0] not in ('--copy', '--noop'):
            extra = rng.choice(([], [], ['-%d' % rng.choice((0, 1, 9))], ['--max-pack-size=%d' % rng.choice((1, 2000, 50000))], ['--max-pack-objects=%d' % rng.choice((1, 3, 20))], ['-v'], ['-q'],
                                 ['-d', '1234567890']))
        ways.append([way, mode, extra, rng.random() if rng.random() < .5 else None, rng.randrange(1 << 30)])
    joins = []
    for _ in range(rng.randint(1, 4) if not big else 1):
        joins.append([rng.choice(('local', 'local', 'ssh', 'bup')), rng.choice(('tree', 'commit', 'branch', 'list', 'stdin', 'two', 'restore', 'cat')), rng.choice(('out', 'out', 'file')),
                      rng.random() if rng.random() < .4 else None, rng.randrange(1 << 30)])
    return {'cfg': cfg, 'files': files, 'opts': opts, 'ways': ways, 'joins': joins, 'tseed': rng.randrange(1 << 30), 'big': big}

def sample(p):
    return {k: p[k] for k in ('files', 'opts', 'ways', 'joins')} | {'config': p['cfg']['config'], 'frag': p['cfg']['frag']}

MODES = (b'-n', b'-t', b'-b')

def feeder(data, seed):
    def fn(p):
        w = G.world
        r = subrng(seed, 'feed')
        pos = 0
        while pos < len(data):
            n = r.choice((1, 100, 4096, 65536, 1 << 20, len(data)))
            try:
                programs.put(1, data[pos:pos + n])
            except BrokenPipeError:
                return 1
            pos += n
            if r.random() < .3:
                w.block(p, None, until=w.now + r.randrange(10**9), on='sleep')
        return 0
    return fn

def value(r, out, mode, data):
    """What a split gave: {'blobs': ids, 'tree': id, 'data': bytes}, by what its mode gives."""
    res = {}
    lines = out.split(b'\n')
    if lines and lines[-1] == b'':
        lines.pop()
    if mode == ['--copy']:
        return {'data': out}
    if mode[0] == '--noop':
        return {'blobs': lines} if '-b' in mode else {'tree': lines[0]} if len(lines) == 1 else {'bad': out}
    if '-b' in mode:
        return {'blobs': lines}
    if '-t' in mode:
        if not lines:
            return {'bad': out}
        res['ntree' if '-n' in mode else 'tree'] = lines.pop(0)
    if '-c' in mode:
        if not lines:
            return {'bad': out}
        c = bytes.fromhex(lines.pop(0).decode('latin-1'))
        if c not in r.objs:
            return {'bad': out}
        k = r.commit(c)
        t = k['tree'].hex().encode()
        if res.get('tree', t) != t:
            return {'bad': out}
        res['tree'] = t
    if '-n' in mode:
        o = r.refs().get(b'refs/heads/new')
        if o is None:
            return {'bad': out}
        t = r.commit(o)['tree'].hex().encode()
        if res.get('ntree', t) != t:
            return {'bad': out}
        res['ntree'] = t
    if lines:
        return {'bad': out}
    return res

def execute(plan, rec):
    contents = [gen.content(f) for f in plan['files']]
    data = b''.join(contents)
    if not data:
        rec.probe('empty')
    if plan['big']:
        rec.probe('big')
    opts = plan['opts']
    kb = '--keep-boundaries' in opts
    if kb:
        rec.probe('keep-boundaries')
    base = Lab(dict(plan['cfg'], frag='none', preempt=0, latency=0, short_writes=0, trace=plan.get('trace')))
    fs = base.host.fs
    names = []
    for k, c in enumerate(contents):
        fs.put(SRC + b'/f%d' % k, c)
        names.append('/src/f%d' % k)
    # reference
    def ref(mode, files=names):
        a = ['split', *mode, *(opts if '-b' not in mode else [o for o in opts if not o.startswith('--fan')]), *files]
        r = base.do(B(*a))
        if r.rc or base.w.harness_errors:
            if base.w.harness_errors:
                raise HarnessError(str(base.w.harness_errors[0]))
            raise Violation('failed', f'{a} exited {r.rc}: {r.err[-500:].decode("utf-8", "replace")}')
        return r.out
    if not names:
        return
    want = {'data': data, 'blobs': ref(['-b']).split(), 'tree': ref(['-t']).strip()}
    ref(['-n', 'sp'])
    ref(['-c'])
    r = Repo(fs)
    must_complete(r, 'after split')
    head = r.refs()[b'refs/heads/sp']
    want['ntree'] = r.commit(head)['tree'].hex().encode()
    blobs = [r.get(bytes.fromhex(b.decode()), b'blob') for b in want['blobs']]
    if b''.join(blobs) != data:
        raise Violation('chunks', f'the chunks of split -b do not make up the input: {sum(map(len, blobs))} bytes of {len(data)}')
    got = r.chunks(bytes.fromhex(want['tree'].decode()), 0o40000)
    if got != data:
        raise Violation('chunks', f'the tree of split -t holds {len(got)} bytes instead of the {len(data)} of the input')
    d = r.dir(bytes.fromhex(want['ntree'].decode()))
    if set(d) != {b'data'} or r.chunks(d[b'data'][2], d[b'data'][1]) != data:
        raise Violation('chunks', 'the data of split -n is not the input')
    bits = 13
    if 'legacy' in plan['cfg']['config']:
        bits = int(plan['cfg']['config'].split('legacy:')[1].split()[0])
    for b in blobs:
        if not b or len(b) > 4 << bits:
            raise Violation('chunks', f'a chunk has {len(b)} bytes')
    if len(blobs) > 20:
        rec.probe('many-chunks')
    # chunks depend on what follows only
    if len(blobs) > 1 and not kb:
        k = 1 + subrng(plan['tseed'], 'cut').randrange(len(blobs) - 1)
        fs.put(SRC + b'/tail', b''.join(blobs[k:]))
        got = ref(['-b'], ['/src/tail']).split()
        if got != want['blobs'][k:]:
            raise Violation('context', f'a split that starts at chunk {k} of {len(blobs)} gives other chunks')
        rec.probe('suffix')
    if kb:
        per = []
        for n in names:
            per += ref(['-b'], [n]).split()
        if per != want['blobs']:
            raise Violation('boundaries', f'with --keep-boundaries, {len(want["blobs"])} chunks instead of the {len(per)} of the single files')
    state = {n: h.fs for n, h in base.w.hosts.items()}
    now = base.w.epoch + base.w.now
    rec.world(base.w)
    base.close()
    for n, way in enumerate(plan['ways']):
        split(plan, rec, state, now, contents, names, want, way, n, bool(blobs) and blobs)
    for n, j in enumerate(plan['joins']):
        join(plan, rec, state, now, data, want, head, j, n)

def lab_for(plan, state, now, mode, seed):
    l = Lab(dict(plan['cfg'], epoch=now + 10 * SEC, seed=seed, trace=plan.get('trace'), srv=True), fs=state['host'].clone())
    l.use_fs('srv', state['srv'].clone())
    return l

def split(plan, rec, state, now, contents, names, want, way, n, blobs):
    how, mode, extra, fault, seed = way
    kb = '--keep-boundaries' in plan['opts']
    if how in ('stdin', 'pipe') and kb:
        how = 'short'
    if how == 'ids' and kb and len(contents) != len(want['blobs']):
        how = 'files'
    l = lab_for(plan, state, now, how, seed)
    w = l.w
    data = b''.join(contents)
    files = list(names)
    kw = {}
    rng = subrng(seed, 'way')
    opts = plan['opts'] if '-b' not in mode else [o for o in plan['opts'] if not o.startswith('--fan')]
    a = ['split', *mode, *extra, *opts]
    writer = None
    host, repo = l.host, l.host
    fail = None
    pre = b'bup'
    rpc = mode[0] not in ('--copy', '--noop')
    if how == 'stdin' or how in ('ssh', 'bup') and rng.random() < .5 and not kb:
        at = None
        if fault is not None and how == 'stdin':
            at = int(fault * (len(data) + 1))
            fail = f'reading fails at byte {at}'
        kw['stdin'] = SourceDesc(data, fail_at=at)
        files = []
    elif how == 'pipe':
        pipe = Pipe(plan['cfg']['pipe_capacity'])
        kw['stdin'] = PipeR(pipe)
        files = []
        w.programs[b'feeder'] = feeder(data, seed)
        writer = lab.start(w, l.host, [b'feeder'], out=PipeW(pipe))
    elif how == 'ids':
        ids = list(want['blobs'])
        if fault is not None and ids:
            ids[int(fault * len(ids))] = b'1' * 40
            fail = 'an id does not exist'
        kw['stdin'] = SourceDesc(b''.join(i + b'\n' for i in ids))
        files = []
        a.append('--git-ids')
    elif how == 'short':
        w.faults.append(Fault({'prog': 'bup split', 'calls': ['read'], 'under': '/src', 'nth': 0, 'persist': True, 'action': 'short'}))
    r0 = r1 = None
    if how in ('ssh', 'bup'):
        repo = l.srv
        if how == 'bup':
            Remote({'mode': 'bup'}, l)
        a[1:1] = ['-r', 'srv:/r' if how == 'ssh' else 'bup://srv/r']
    elif how == 'on':
        for k, c in enumerate(contents):
            l.srv.fs.put(SRC + b'/f%d' % k, c)
        a[:1] = ['on', 'srv', 'split']
    flt = None
    if fault is not None and files:
        x = rng.random()
        if x < .3:
            files[int(fault * len(files))] = rng.choice(('/src/nonexistent', '/src'))
            fail = 'an input is missing or a directory'
        elif how != 'short':
            flt = Fault({'prog': 'bup split', 'calls': [rng.choice(('read', 'read', 'open', 'fstat'))], 'under': '/src/f', 'nth': rng.randrange(1 + 2 * len(files)), 'action': 'err', 'errno': 'EIO',
                         'persist': rng.random() < .5})
            w.faults.append(flt)
    refs0 = Repo(repo.fs).refs()
    if rpc is False and how == 'on':
        pass
    kw.setdefault('out', SinkDesc())
    try:
        p = lab.start(w, host, [pre] + [enc(x) for x in a + files], **kw)
        w.run(p)
        if writer is not None:
            w.run_until(lambda: writer.dead)
        for d in w.procs:
            if d.aux.get('daemon') and not d.dead:
                pass
        lab.settle(w)
    except SimHang as ex:
        raise Violation('hang', f'{a}: {ex}')
    if w.harness_errors:
        raise HarnessError(str(w.harness_errors[0]))
    r = lab.result(p)
    if flt is not None and flt.fired:
        fail = f'EIO at {flt.where}'
        rec.fault('err-EIO')
    what = f'way {n}: bup {" ".join(a)} {" ".join(files)} [{how}]' + (f', {fail}' if fail else '') + f': exit {r.rc}'
    rec.probe(how if how != 'files' else 'local-files')
    if mode == ['--copy']:
        rec.probe('copy')
    rec.state('split', how, tuple(mode), tuple(e.split('=')[0] for e in extra), tuple(plan['opts']), min(len(want['blobs']), 40), fail is not None, r.rc)
    if fail:
        rec.probe('split-fault')
    rp = Repo(repo.fs)
    must_complete(rp, what)
    if r.rc:
        rec.probe('failed')
        if not fail:
            raise Violation('failed', f'{what}: {r.err[-600:].decode("utf-8", "replace")}')
        if rp.refs() != refs0 and how != 'ids':
            raise Violation('ref', f'{what}, but the branch was changed')
        if mode == ['--copy'] and how != 'ids' and not data.startswith(r.out):
            raise Violation('copy', f'{what}: the output is not a part of the input')
    else:
        v = value(rp, r.out, mode, data)
        if 'bad' in v:
            raise Violation('output', f'{what}: unexpected output {v["bad"][:300]!r}')
        for k, x in v.items():
            if x != want[k]:
                if fail and k == 'data':
                    raise Violation('copy', f'{what}: {len(x)} bytes instead of {len(data)}')
                raise Violation('differs', f'{what}: {k} is {str(x)[:100]}, from plain files {str(want[k])[:100]}' + (' (with a failing input)' if fail else ''))
        if '-n' in mode and rp.refs().get(b'refs/heads/new') is None:
            raise Violation('ref', f'{what}, but there is no branch')
    rec.world(w)
    l.close()

def join(plan, rec, state, now, data, want, head, j, n):
    where, kind, to, fault, seed = j
    l = lab_for(plan, state, now, where, seed)
    w = l.w
    if where != 'local':
        # what was split is at the other machine
        for p, i in list(state['host'].tree(b'/r')):
            if i.data is not None:
                l.srv.fs.mkdirs(p.rsplit(b'/', 1)[0])
                l.srv.fs.put(p, bytes(i.data))
        if where == 'bup':
            Remote({'mode': 'bup'}, l)
    rng = subrng(seed, 'join')
    kw = {}
    a = ['join']
    expect = data
    args = {'tree': [want['tree']], 'commit': [head.hex().encode()], 'branch': [b'sp'], 'list': want['blobs'], 'stdin': [], 'two': [want['tree'], b'sp']}.get(kind, [])
    if kind == 'commit' or kind == 'branch':
        pass
    if kind in ('list', 'stdin') and not want['blobs']:
        args, kind = [want['tree']], 'tree'
    if kind == 'stdin':
        kw['stdin'] = SourceDesc(b''.join(b + b'\n' for b in want['blobs']))
    if kind == 'two':
        expect = data + data
    remote = ['-r', 'srv:/r' if where == 'ssh' else 'bup://srv/r'] if where != 'local' else []
    if kind == 'restore':
        a = ['restore', *remote, '-C', '/tmp/out', '/sp/latest/data']
        to = 'file'
        args = []
    elif kind == 'cat':
        if where != 'local':
            remote = []
            where = 'local'
        a = ['cat-file', '/sp/latest/data']
        to = 'out'
        args = []
    else:
        a += remote
        if to == 'file':
            a += ['-o', '/tmp/joined']
    sink = SinkDesc()
    fail = None
    links = []
    if fault is not None:
        x = rng.random()
        if x < .35 and to == 'out':
            sink.limit = int(fault * (len(expect) + 1))
            sink.limit_errno = ENOSPC
            fail = f'output full after {sink.limit} bytes'
        elif x < .6 and where != 'local':
            k = int(fault * (len(expect) + 500))
            def hook(link):
                q = link.pipes[-1]
                q.cut_after = k
                q.on_cut = lambda q: link.cut()
                links.append(link)
            w.link_hook = hook
            fail = f'connection cut after {k} bytes'
        elif x < .8:
            w.faults.append(Fault({'prog': rng.choice(('git cat-file', 'git')), 'nth': int(fault * 60), 'action': 'kill', 'calls': ['read', 'write', 'open', 'mmap', 'close']}))
            fail = 'git is killed'
        else:
            w.faults.append(Fault({'prog': 'git cat-file', 'calls': ['read', 'open', 'mmap'], 'nth': int(fault * 15), 'action': 'err', 'errno': 'EIO', 'persist': rng.random() < .5}))
            fail = 'EIO in git'
    try:
        p = lab.start(w, l.host, [b'bup'] + [enc(x) for x in a] + args, out=sink, **kw)
        w.run(p)
        lab.settle(w)
    except SimHang as ex:
        raise Violation('hang', f'{a}: {ex}')
    if w.harness_errors:
        raise HarnessError(str(w.harness_errors[0]))
    r = lab.result(p)
    if fail:
        hit = sink.limit_hit or any(k.broken for k in links) or any(f.fired for f in w.faults)
        if not hit:
            fail = None
        else:
            rec.probe('join-fault')
            rec.fault(fail.split(' after')[0])
    what = f'join {n}: bup {" ".join(a)} {kind}' + (f', {fail}' if fail else '') + f': exit {r.rc}'
    rec.probe('join-local' if where == 'local' else 'join-remote')
    if kind in ('list', 'stdin'):
        rec.probe('join-list')
    if to == 'file':
        rec.probe('join-file')
    rec.state('join', where, kind, to, fail and fail.split(' after')[0], r.rc, len(data).bit_length())
    out = r.out
    if to == 'file':
        i = l.host.fs.lookup(b'/tmp/joined' if kind != 'restore' else b'/tmp/out/data')
        out = bytes(i.data) if i is not None else None
    if r.rc == 0:
        if out != expect:
            raise Violation('joined', f'{what}: {len(out) if out is not None else None} bytes instead of {len(expect)}' if out is None or len(out) != len(expect) else f'{what}: wrong bytes')
        if kind == 'restore':
            rec.probe('restored')
    else:
        rec.probe('failed')
        if not fail:
            raise Violation('failed', f'{what}: {r.err[-600:].decode("utf-8", "replace")}')
        if to == 'out' and not expect.startswith(out):
            raise Violation('joined', f'{what}: the output is not a part of the data')
    rec.world(w)
    l.close()
