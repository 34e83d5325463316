#!/usr/bin/env python3
"""xval.py [N] [SEED]: compare the git and par2 stand-ins with the real programs.

Makes N random simulated repositories (saves, git-made objects, tags, damage), writes
each out to a scratch directory, and asks the stand-in and the real program the same
random questions: status (as far as bup tells statuses apart), output, and what became
of the references and files. Prints each difference; exit 1 if there were any."""

import hashlib, os, random, shutil, stat, struct, subprocess, sys, tempfile
from binascii import hexlify, unhexlify

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sim import gen, lab as L, oracle
from sim.kernel import G
from props import common as C

N = int(sys.argv[1]) if len(sys.argv) > 1 else 40
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
REPO = L.REPO
ENV = {'PATH': os.environ['PATH'], 'HOME': '/nonexistent', 'GIT_CONFIG_NOSYSTEM': '1',
       'LANG': 'C.UTF-8', 'TZ': 'UTC'}
counts = {}
diffs = []


def export(fs, path, dest):
    def walk(i, d):
        for n, c in i.entries.items():
            p = d + b'/' + n
            if stat.S_ISDIR(c.mode):
                os.mkdir(p)
                walk(c, p)
            elif stat.S_ISREG(c.mode):
                with open(p, 'wb') as f:
                    f.write(bytes(c.data))
                os.chmod(p, stat.S_IMODE(c.mode))
    os.mkdir(dest)
    walk(fs.lookup(path), dest)


def real(dest, argv, stdin=b'', cwd=None):
    e = dict(ENV)
    e['GIT_DIR'] = os.fsdecode(dest)
    r = subprocess.run(argv, input=stdin, env=e, cwd=cwd or dest, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=60)
    return r.returncode, r.stdout, r.stderr


def simd(l, argv, stdin=b'', cwd=REPO):
    G.world = l.w
    r = L.run(l.w, l.host, argv, stdin=stdin, env={b'GIT_DIR': REPO}, cwd=cwd)
    return r.rc, r.out, r.err


def refs_real(dest):
    rc, out, _ = real(dest, ['git', 'for-each-ref', '--format=%(objectname) %(refname)'])
    # for-each-ref leaves out broken references; read the files as well
    res = {}
    pr = os.path.join(dest, b'packed-refs')
    if os.path.exists(pr):
        for l in open(pr, 'rb').read().splitlines():
            if l and l[:1] not in b'#^':
                h, _, n = l.partition(b' ')
                res[n] = h
    for d, ds, fs in os.walk(os.path.join(dest, b'refs')):
        for f in fs:
            if not f.endswith(b'.lock'):
                p = os.path.join(d, f)
                res[os.path.relpath(p, dest)] = open(p, 'rb').read().strip()
    return res


def differ(what, plan, sim, rl):
    diffs.append(what)
    print('DIFFERENCE', what, plan, '\n  stand-in:', sim, '\n  real:    ', rl)


def note(k):
    counts[k] = counts.get(k, 0) + 1


def names(rng, r, odd=True):
    refs = r.refs()
    c = [b'refs/heads/main', b'main', b'nope', b'refs/tags/t', b't', b'refs/heads', b'HEAD', b'heads/main']
    if refs:
        c += [rng.choice(sorted(refs)) for _ in range(4)]
        c += [n.split(b'/', 2)[2] for n in rng.sample(sorted(refs), min(2, len(refs)))]
    oids = sorted(r.objs)
    if oids:
        o = hexlify(rng.choice(oids))
        c += [o, hexlify(rng.choice(oids)), o[:rng.randrange(12, 40)], o.upper()]
    c += [b'%040x' % rng.getrandbits(160)]
    if odd:
        c += [b'a b', b'x' * 41, b'refs/heads/x.lock', b'main..', b'deadbeef' * 4]
    return rng.choice(c)


def world(rng, k):
    plan_seed = rng.getrandbits(30)
    cfg = C.base_cfg(random.Random(plan_seed))
    cfg.pop('personality', None)
    cfg.update(preempt=0, seed=plan_seed)
    l = L.Lab(cfg)
    l.init()
    fs = l.host.fs
    fs.mkdirs(L.SRC)
    for i in range(rng.randrange(1, 4)):
        for j in range(rng.randrange(1, 6)):
            fs.put(L.SRC + b'/f%d' % j, bytes(rng.getrandbits(8) for _ in range(rng.randrange(0, 9000))))
        assert l.bup('index', '/src').rc == 0
        assert l.bup('save', '-n', rng.choice(['main', 'a', 'a/b', 'x-y'][:1 if i == 0 else 4]), '-q', '/src').rc in (0, 1, 2)
    # objects git might have made
    blob = bytes(rng.getrandbits(8) for _ in range(50))
    boid = hashlib.sha1(b'blob %d\0' % len(blob) + blob).digest()
    tree = b'100644 f\0' + boid
    toid = hashlib.sha1(b'tree %d\0' % len(tree) + tree).digest()
    tag = b'object ' + hexlify(toid) + b'\ntype tree\ntag tt\ntagger A <a@b> 1 +0000\n\nmsg\n'
    r = l.repo()
    m = r.refs().get(b'refs/heads/main')
    m = m and hexlify(m)
    com = []
    for i in range(rng.randrange(0, 3)):
        com.append((b'commit', b'tree ' + hexlify(toid) + (b'\nparent ' + m if m and rng.random() < .7 else b'')
                    + b'\nauthor A U <a@b> %d +0100\ncommitter C <c@d> %d -0230\n\nsubject %d\n\nbody\n'
                    % (rng.randrange(2**31), rng.randrange(2**31), i)))
    oids = L.add_objects(fs, REPO, [(b'blob', blob), (b'tree', tree), (b'tag', tag)] + com)
    if rng.random() < .7:
        L.set_ref(fs, REPO, b'refs/tags/tt', oids[2])
    for i, o in enumerate(oids[3:]):
        L.set_ref(fs, REPO, b'refs/heads/g%d' % i, o)
    if rng.random() < .4:
        L.set_ref(fs, REPO, b'refs/tags/blob', boid)
    if rng.random() < .3:
        L.set_ref(fs, REPO, b'refs/tags/gone', bytes(rng.getrandbits(8) for _ in range(20)))
    if rng.random() < .5:
        pr = fs.lookup(REPO + b'/packed-refs')
        data = bytes(pr.data) if pr is not None else b'# pack-refs with: peeled fully-peeled sorted \n'
        data += (m or hexlify(toid)) + b' refs/heads/zz-packed\n'
        fs.put(REPO + b'/packed-refs', data)
    return l


def damage(l, rng):
    fs = l.host.fs
    d = fs.lookup(REPO + b'/objects/pack')
    packs = [n for n in sorted(d.entries) if n.endswith((b'.pack', b'.idx'))]
    n = rng.choice(packs)
    i = d.entries[n]
    data = bytearray(i.data)
    k = rng.choice(['flip', 'trunc', 'zero', 'append', 'rm'])
    if k == 'flip':
        p = rng.randrange(len(data)) if rng.random() < .7 else rng.randrange(max(0, len(data) - 60), len(data))
        data[p] ^= 1 << rng.randrange(8)
    elif k == 'trunc':
        del data[rng.randrange(len(data)):]
    elif k == 'zero':
        a = rng.randrange(len(data))
        data[a:a + 100] = bytes(len(data[a:a + 100]))
    elif k == 'append':
        data += b'x' * rng.randrange(1, 40)
    else:
        fs.unlink(d, n, i)
        return n, k
    fs.put(REPO + b'/objects/pack/' + n, bytes(data))
    return n, k


def questions(l, rng, dest, damaged):
    r = l.repo()
    for q in range(14):
        k = rng.choice(['cat', 'cat', 'show-ref', 'rev-list', 'update-ref', 'update-ref', 'delete-ref', 'config',
                        'setconfig', 'verify-pack', 'index-pack'])
        stdin = b''
        cmpout = True
        if k == 'cat':
            mode = rng.choice(['--batch', '--batch-check', '--batch-command'])
            ls = []
            for _ in range(rng.randrange(1, 8)):
                n = names(rng, r)
                if mode == '--batch-command':
                    n = rng.choice([b'contents ', b'info ']) + n
                ls.append(n + b'\n')
            stdin = b''.join(ls)
            argv = ['git', 'cat-file', mode]
        elif k == 'show-ref':
            argv = ['git', 'show-ref'] + rng.choice([[], ['--heads'], ['--tags'], ['--heads', '--tags']]) + ['--'] \
                + [os.fsdecode(names(rng, r)) for _ in range(rng.randrange(0, 3))]
        elif k == 'rev-list':
            argv = ['git', 'rev-list'] + rng.choice([[], ['--pretty=format:%T %at %ct'], ['--pretty=format:%T %ct%n%H']]) \
                + [os.fsdecode(rng.choice([names(rng, r, False), b'refs/heads/main', b'main'])) for _ in range(rng.randrange(1, 3))] + ['--']
        elif k in ('update-ref', 'delete-ref'):
            ref = rng.choice([b'refs/heads/main', b'refs/heads/main/x', b'refs/heads/new', b'refs/heads/a',
                              b'refs/heads/a/b', b'refs/tags/n', b'refs/heads/zz-packed', b'refs/tags/tt', b'refs/heads/b.lock',
                              b'refs/heads/x..y', b'refs/heads/.h', b'refs/heads/y z', b'refs/heads/e/'])
            cur = r.refs().get(ref)
            if cur is not None and len(cur) == 20:
                cur = hexlify(cur)
            some = [hexlify(o) for o in rng.sample(sorted(r.objs), min(3, len(r.objs)))] + [b'%040x' % 7] \
                + [hexlify(o) for o in r.objs if r.type(o) == b'commit'][:4] * 3
            old = rng.choice([None, None, cur, cur, b'', b'0' * 40, rng.choice(some)])
            argv = ['git', 'update-ref'] + (['-d', ref] if k == 'delete-ref' else [ref, rng.choice(some)])
            if k == 'delete-ref' and old in (b'', b'0' * 40):
                old = None # bup never deletes "if absent"
            if old is not None:
                argv.append(old)
            cmpout = False
        elif k == 'config':
            argv = ['git', 'config', '--file', 'config', '--null', '--get',
                    rng.choice(['pack.packsizelimit', 'bup.split.files', 'bup.split-trees', 'core.bare', 'a.b.c', 'core.bAre',
                                'bup.server.deduplicate-writes', 'no.such'])]
        elif k == 'setconfig':
            argv = ['git', 'config', rng.choice(['core.fooBar', 'bup.repo-id', 'gc.auto', 'x.y']),
                    rng.choice(['1', 'abc', 'with space', 'legacy:14', 'a"b', 'a#b', 'x\\y', '', ' lead'])]
        else:
            packs = [n for n in os.listdir(os.path.join(dest, b'objects/pack')) if n.endswith(b'.pack')]
            if not packs:
                continue
            n = os.fsdecode(rng.choice(sorted(packs)))[:-5]
            if k == 'verify-pack':
                argv = ['git', 'verify-pack', '--', 'objects/pack/' + n]
                cmpout = False
            else:
                argv = ['git', 'index-pack', 'objects/pack/' + n + '.pack']
                for path in (os.path.join(dest, b'objects/pack/' + os.fsencode(n) + b'.idx'),):
                    if os.path.exists(path):
                        os.unlink(path)
                fs = l.host.fs
                d = fs.lookup(REPO + b'/objects/pack')
                i = d.entries.get(os.fsencode(n) + b'.idx')
                if i is not None:
                    fs.unlink(d, os.fsencode(n) + b'.idx', i)
        argv = [os.fsencode(a) for a in argv]
        # git leaves references with missing or broken objects out (with a warning) in places
        # where bup does not depend on it
        s = simd(l, argv, stdin)
        x = real(dest, argv, stdin)
        note(k)
        if k == 'config' or k == 'show-ref':
            same = min(s[0], 2) == min(x[0], 2)
        else:
            same = (s[0] == 0) == (x[0] == 0)
        if same and cmpout and (x[0] == 0 or k == 'cat'):
            same = s[1] == x[1]
        if not same:
            differ(k, (argv, stdin, damaged), s, x)
            return # the states differ from here on
        r = l.repo()
        a = {n: (hexlify(v) if len(v) == 20 else v) for n, v in r.refs().items()}
        b = refs_real(dest)
        if a != b:
            differ(k + ' refs', (argv, damaged), sorted(set(a.items()) - set(b.items())), sorted(set(b.items()) - set(a.items())))
            return
        if k == 'index-pack' and x[0] == 0:
            p = argv[2][:-5] + b'.idx'
            if bytes(l.host.fs.lookup(REPO + b'/' + p).data) != open(os.path.join(dest, p), 'rb').read():
                differ('index-pack file', (argv, damaged), '', '')
                return


def par2(rng, tmp):
    """The statuses of par2 verify and repair, and what they leave."""
    l = L.Lab(dict(C.base_cfg(random.Random(1)), preempt=0, seed=rng.getrandbits(30)))
    fs = l.host.fs
    d = os.path.join(tmp, b'p')
    os.mkdir(d)
    data = rng.randbytes(rng.choice([100, 3000, 50000, 300000]))
    fs.mkdirs(b'/p')
    def both(n, c):
        if c is None:
            if os.path.exists(os.path.join(d, n)):
                os.unlink(os.path.join(d, n))
            dd = fs.lookup(b'/p')
            if n in dd.entries:
                fs.unlink(dd, n, dd.entries[n])
            return
        with open(os.path.join(d, n), 'wb') as f:
            f.write(c)
        fs.put(b'/p/' + n, c)
    both(b'x.pack', data)
    argv = [b'par2', b'create', b'-qq', b'-n1', b'-c200', b'--', b'x', b'x.pack']
    s, x = simd(l, argv, cwd=b'/p'), real(d, argv)
    note('par2 create')
    if (s[0] == 0) != (x[0] == 0) or sorted(fs.lookup(b'/p').entries) != sorted(os.listdir(d)):
        differ('par2 create', len(data), (s, sorted(fs.lookup(b'/p').entries)), (x, sorted(os.listdir(d))))
        return
    k = rng.choice(['none', 'flip', 'flip', 'many', 'rm', 'trunc', 'par2', 'vol', 'novol'])
    c = bytearray(data)
    if k == 'flip':
        for _ in range(rng.randrange(1, 4)):
            c[rng.randrange(len(c))] ^= 255
    elif k == 'many':
        c = bytearray(rng.randbytes(len(c)))
    elif k == 'trunc':
        c = c[:len(c) * rng.choice([0, 50, 95]) // 100]
    if k == 'rm':
        both(b'x.pack', None)
    elif k in ('flip', 'many', 'trunc'):
        both(b'x.pack', bytes(c))
    elif k == 'novol':
        both(b'x.vol000+200.par2', None)
        both(b'x.pack', bytes(data[:len(data) // 2]) + b'#' + data[len(data) // 2 + 1:])
    for action in (b'verify', b'repair', b'verify'):
        argv = [b'par2', action, b'-qq', b'--', b'x']
        s, x = simd(l, argv, cwd=b'/p'), real(d, argv)
        note('par2 ' + action.decode())
        if (s[0] == 0) != (x[0] == 0):
            differ('par2 status', (len(data), k, action), s, x)
            return
        rp = os.path.join(d, b'x.pack')
        a = fs.lookup(b'/p').entries.get(b'x.pack')
        a = None if a is None else bytes(a.data)
        b = open(rp, 'rb').read() if os.path.exists(rp) else None
        if a != b:
            differ('par2 data', (len(data), k, action), a and len(a), b and len(b))
            return


def main():
    rng = random.Random(SEED)
    for k in range(N):
        tmp = os.fsencode(tempfile.mkdtemp(prefix='xval-'))
        try:
            l = world(rng, k)
            dm = damage(l, rng) if rng.random() < .6 else None
            dest = os.path.join(tmp, b'r')
            export(l.host.fs, REPO, dest)
            questions(l, rng, dest, dm)
            par2(rng, tmp)
        finally:
            shutil.rmtree(tmp)
    print('compared', counts, 'differences', len(diffs))
    sys.exit(1 if diffs else 0)

main()
