"""validate-refs, validate-ref-links and validate-object-links."""

import re, stat

from .common import *
from .p19 import kinds, do_damage, dirobjs
from .p04 import interesting
from sim import programs

ID = 'P23'
RULE = ('A plan is a history of saves, splits, tags, removals and collections, then validations (validate-refs with and without --links, --bupm and refs, validate-ref-links, validate-object-links), '
        'each of a copy in which some objects were lost (any kind and number of them left out of packs; packs or indexes gone, maybe all, with the midxes and the filter of before), or directory metadata was '
        'abridged or extended in a commit made of a saved one; also next to saves and splits that run meanwhile, and with errors, short reads and kills in what the command and git read. An independent reader '
        'computes what is missing below every examined ref and between stored objects. Distinct non-trivial: different (command, options, damage, kinds of lost objects, outcome) combinations.')
ASSUMPTIONS = ['with a fault in git itself, what it cannot read may be reported as missing', 'midxes that no longer apply may be removed']
SHRINK = ['pre', 'pre.*.1', 'trials', 'trials.*.damage']
PROBES = ['intact', 'missing', 'rmpack', 'rmidx', 'all-packs', 'bupm-less', 'bupm-more', 'refs', 'absent-ref', 'tag-object', 'links', 'bupm', 'object-links', 'ref-links', 'verbose',
          'concurrent', 'stall', 'fault', 'split-tree', 'chunked-bupm', 'midx', 'lost-commit', 'lost-tree', 'lost-blob', 'many-missing', 'unreachable', 'exit-1', 'exit-2', 'exit-0']
LEVEL = 'seeded search against an independent reader'
WHAT = ('commit', 'tree', 'tree', 'bupm', 'chunk', 'chunk', 'chunktree', 'any', 'any')

def damage(rng):
    x = rng.random()
    if x < .55:
        return ['missing', rng.choice(WHAT), 'needed', rng.random(), rng.randrange(1 << 30)]
    if x < .7:
        return [rng.choice(('rmpack+', 'rmidx')), 'any', 'needed', rng.random(), rng.randrange(1 << 30)]
    if x < .75:
        return ['all']
    return ['bupm', rng.choice(('less', 'less', 'more')), rng.random(), rng.random(), rng.choice((1, 1, 1, 2, 5)), rng.random() < .5]

def refarg(rng):
    k = rng.choice(('branch', 'save', 'save', 'latest', 'dir', 'dir', 'file', 'tag', 'sp', 'spdata', 'absent'))
    return [k, rng.random(), rng.random()]

def plan(rng, tier, i):
    cfg = base_cfg(rng)
    cfg['gran'] = 1
    cfg['config'] = '[bup "split"]\n\tfiles = legacy:%d\n' % rng.choice((13, 13, 13, 15)) + ('\ttrees = true\n' if rng.random() < .4 else '') + \
        '[pack]\n' + ('\tpackSizeLimit = %d\n' % rng.choice((2000, 5000, 40000)) if rng.random() < .6 else '') + ('\tcompression = %d\n' % rng.choice((0, 1, 9)) if rng.random() < .5 else '')
    g = treegen(rng, rich=rng.random() < .5, big=.2, maxsize=60000)
    pre = []
    for n in range(rng.choice((1, 2, 2, 3, 4))):
        e = g.edits(rng.randint(3, 14) if n == 0 else rng.randint(1, 4))
        if n == 0 and rng.random() < .35:
            e.append(['many', '', rng.choice(('m', '*')), rng.choice((60, 200, 500, 900)), rng.randrange(1000)])
            gen.apply_edit(g.fs, g.base, e[-1])
        pre += [['fs', e], B('index', '/src'), B('save', '-n', rng.choice(('main', 'main', 'main', 'side')) if n else 'main', '/src'), ['sleep', 3 * SEC]]
        if rng.random() < .2:
            pre.append(B('tag', f'tg{n}', 'main'))
    if rng.random() < .7:
        pre.append(B('split', '-n', 'sp', *fan(rng), stdin=gen.rand_spec(rng, .5, 80000)))
    if rng.random() < .3:
        pre.append(B('midx', '-f'))
    if rng.random() < .2:
        pre += [B('split', '-n', 'gone', stdin=gen.rand_spec(rng, .5, 30000)), B('rm', '--unsafe', '/gone')]
        if rng.random() < .4:
            pre.append(B('gc', '--unsafe'))
    trials = []
    for _ in range(rng.randint(4, 7)):
        t = {'cmd': rng.choice(('refs', 'refs', 'refs', 'refs', 'ref-links', 'object-links', 'object-links')), 'opts': rng.choice(([], [], ['--links'], ['--links'], ['--bupm'], ['--bupm'], ['--links', '--bupm'])),
             'v': rng.choice((0, 0, 0, 1, 2)), 'refs': [refarg(rng) for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 3)))], 'damage': [], 'seed': rng.randrange(1 << 30), 'tagobj': rng.random() < .1, 'odd': rng.random() < .15}
        x = rng.random()
        if x < .7:
            t['damage'] = [damage(rng) for _ in range(rng.choice((1, 1, 1, 2, 3, 8)))]
        elif x < .85:
            t['with'] = [rng.choice(('save', 'split')) for _ in range(rng.choice((1, 1, 2)))]
            t['preempt'] = rng.choice((.05, .3, .6))
            t['delay'] = rng.randrange(1 << 30)
            if rng.random() < .6:
                t['stall'] = rng.random()
        if rng.random() < .25:
            t['fault'] = [rng.choice(('err', 'err', 'kill', 'short')), rng.random(), rng.random(), rng.random() < .3]
        trials.append(t)
    return {'cfg': cfg, 'pre': pre, 'trials': trials}

def sample(p):
    return {'config': p['cfg']['config'], 'trials': p['trials'][:3], 'edits': p['pre'][0]}

# ---------------------------------------------------------------- oracle

def bupm_count(b):
    """Number of entries in directory metadata."""
    n = i = 0
    def vuint():
        nonlocal i
        v = s = 0
        while True:
            c = b[i]
            i += 1
            v |= (c & 127) << s
            s += 7
            if not c & 128:
                return v
    while i < len(b):
        tag = vuint()
        if tag == 0:
            n += 1
        else:
            k = vuint()
            i += k
    return n

def bupm_records(b):
    res = []
    at = i = 0
    while i < len(b):
        def vuint():
            nonlocal i
            v = s = 0
            while True:
                c = b[i]
                i += 1
                v |= (c & 127) << s
                s += 7
                if not c & 128:
                    return v
        if vuint() == 0:
            res.append(b[at:i])
            at = i
        else:
            k = vuint()
            i += k
    return res

def expected(ents):
    if any(n.endswith(b'.bupd') for _, n, _ in ents):
        return 1
    return 1 + sum(1 for m, n, _ in ents if n != b'.bupm' and not (stat.S_ISDIR(m) and not n.endswith(b'.bup')))

class Walk:
    """What is below some roots: seen, missing, abridged and extended metadata."""
    def __init__(self, r, roots):
        self.seen, self.missing = set(), set()
        self.less, self.more = set(), set()
        self.badtype = False
        for o in roots:
            todo = [(o, None)]
            while todo:
                o, want = todo.pop()
                if o in self.seen or o in self.missing:
                    continue
                x = r.objs.get(o)
                if x is None:
                    self.missing.add(o)
                    continue
                if want is not None and x[0] != want or x[0] == b'tag':
                    self.badtype = True
                self.seen.add(o)
                todo.extend(r.links(o))
                if x[0] == b'tree':
                    ents = r.tree(o)
                    for m, n, c in ents:
                        if n == b'.bupm':
                            try:
                                k = bupm_count(r.chunks(c, m))
                            except Missing:
                                continue
                            e = expected(ents)
                            if k < e:
                                self.less.add(o)
                            elif k > e:
                                self.more.add(o)

def encode_tree(ents):
    return b''.join(b'%o %s\0%s' % (m, n, o) for m, n, o in ents)

def no_bloom(fs):
    """(after a loss it is not noticed that it is too small for what is left)"""
    d = fs.lookup(b'/r/objects/pack')
    e = d.entries.get(b'bup.bloom')
    if e is not None and not all(n in e.data for n in d.entries if n.endswith(b'.idx')):
        fs.unlink(d, b'bup.bloom', e)

def change_bupm(fs, r, how, pick, pos, count, direct):
    """Add a commit in which the metadata of a directory has fewer or more entries."""
    refs = r.refs()
    if b'refs/heads/main' not in refs:
        return None
    try:
        main = r.history(refs[b'refs/heads/main'])
    except Missing:
        return None
    top = r.commit(main[int(pick * len(main)) % len(main)])
    found = []
    def walk(o, path):
        ents = r.tree(o)
        for k, (m, n, c) in enumerate(ents):
            if n == b'.bupm':
                found.append((path, o, k))
            elif stat.S_ISDIR(m) and not n.endswith(b'.bup'):
                walk(c, path + [(o, k)])
    try:
        walk(top['tree'], [])
        if not found:
            return None
        path, o, k = found[int(pos * len(found))]
        ents = r.tree(o)
        recs = bupm_records(r.chunks(ents[k][2], ents[k][0]))
    except (Missing, Bad):
        return None
    rng = subrng(int(pos * (1 << 30)), 'bupm')
    if how == 'less':
        if len(recs) < 2:
            return None
        for _ in range(min(count, len(recs) - 1)):
            recs.pop(rng.randrange(1, len(recs)))
    else:
        for _ in range(count):
            recs.insert(rng.randrange(len(recs) + 1), rng.choice(recs))
    new = [(b'blob', b''.join(recs))]
    oid = programs.oid_of(*new[0])
    ents[k] = (0o100644, b'.bupm', oid)
    new.append((b'tree', encode_tree(ents)))
    oid = programs.oid_of(*new[-1])
    for o, k in reversed(path):
        ents = r.tree(o)
        ents[k] = (ents[k][0], ents[k][1], oid)
        new.append((b'tree', encode_tree(ents)))
        oid = programs.oid_of(*new[-1])
    c = b'tree %s\n' % oid.hex().encode() + (b'' if direct else b'parent %s\n' % main[0].hex().encode()) + b'author a <b> 1700000000 +0000\ncommitter a <b> 1700000000 +0000\n\nx\n'
    new.append((b'commit', c))
    have = set(r.objs)
    if {programs.oid_of(*x) for x in new} <= have:
        return None
    lab.add_objects(fs, b'/r', [x for x in new if programs.oid_of(*x) not in have])
    no_bloom(fs)
    lab.set_ref(fs, b'/r', b'refs/heads/bad' + str(pick)[2:6].encode(), programs.oid_of(*new[-1]))
    return True

def prepare(fs, t, rec):
    """Damage a repository; [texts]."""
    texts = []
    d = fs.lookup(b'/r/objects/pack')
    for dm in t['damage']:
        r = Repo(fs)
        if dm[0] == 'bupm':
            if change_bupm(fs, r, *dm[1:]):
                texts.append(f'bupm {dm[1]}')
                rec.probe('bupm-' + dm[1])
                rec.fault('metadata-' + dm[1])
        elif dm[0] == 'all':
            for n, e in list(d.entries.items()):
                if n.endswith((b'.pack', b'.idx')):
                    fs.unlink(d, n, e)
            texts.append('all packs lost')
            rec.probe('all-packs')
            rec.fault('lost-packs')
        else:
            kind = kinds_of(r)
            k = dm[0]
            if k == 'rmpack+':
                cand = sorted(r.packs)
                if not cand:
                    continue
                s = cand[int(dm[3] * len(cand))]
                for x in (b'.pack', b'.idx'):
                    e = d.entries.get(s + x)
                    if e is not None:
                        fs.unlink(d, s + x, e)
                texts.append(f'lost {s.decode()}')
                rec.probe('rmpack')
                rec.fault('lost-pack')
                continue
            h, x = do_damage(fs, dm, r, kind, set(r.objs), ())
            if x:
                texts.append(x)
                rec.probe(k)
                rec.fault('lost-' + ('object' if k == 'missing' else 'index'))
    if texts:
        no_bloom(fs)
    return texts

def kinds_of(r):
    """(of what is still there)"""
    k = {}
    for o, (t, c) in r.objs.items():
        k[o] = {b'commit': 'commit', b'tag': 'commit'}.get(t)
        if t == b'tree':
            ents = r.tree(o)
            k[o] = 'chunktree' if ents and all(re.fullmatch(b'[0-9a-f]+', n) for _, n, _ in ents) else 'tree'
    for o, (t, c) in r.objs.items():
        if t == b'tree':
            for m, n, x in r.tree(o):
                if n == b'.bupm':
                    k[x] = 'bupm'
                elif r.type(x) == b'blob':
                    k.setdefault(x, 'chunk')
                    if k[x] is None:
                        k[x] = 'chunk'
    return k

# ---------------------------------------------------------------- running

def files(fs):
    return {p: bytes(i.data) for p, i in fs.tree(b'/r') if i.data is not None and not p.endswith(b'.midx')}

def name_refs(r, specs):
    """(arguments, [oids], objects needed to find them, an absent one?) or None when it is not clear."""
    refs = r.refs()
    args, roots, absent, ok = [], [], False, True
    def saves(branch):
        h = r.history(refs[b'refs/heads/' + branch])
        return h, lab.save_names(r, h)
    for k, a, b in specs:
        try:
            if k == 'absent':
                args.append(['nope', 'main/nope', 'main/latest/nope/x', '.tag/nope'][int(a * 4)])
                absent = True
                if b'refs/heads/main' in refs:
                    h = saves(b'main')[0]
                    for o in h:
                        r.commit(o)
                    for o in dirobjs(r, r.commit(h[0])['tree']):
                        r.get(o)
                continue
            if k == 'tag':
                tags = sorted(n for n in refs if n.startswith(b'refs/tags/'))
                if not tags:
                    continue
                n = tags[int(a * len(tags))]
                args.append('.tag/' + dec(n[10:]))
                if r.type(refs[n]) == b'tag' or r.type(refs[n]) is None:
                    ok = False
                roots.append(refs[n])
                continue
            br = b'sp' if k in ('sp', 'spdata') else b'main'
            if b'refs/heads/' + br not in refs:
                continue
            if k in ('branch', 'sp'):
                args.append(dec(br))
                roots.append(refs[b'refs/heads/' + br])
                r.get(roots[-1])
                continue
            h, names = saves(br)
            n = 0 if k in ('latest', 'spdata') else int(a * len(h))
            path = dec(br) + '/' + ('latest' if n == 0 and b < .5 or k == 'latest' else dec(names[n]))
            if k in ('save', 'latest'):
                args.append(path)
                roots.append(h[n])
                continue
            tree = r.commit(h[n])['tree']
            if k == 'spdata':
                x = r.dir(tree)[b'data']
                args.append(path + '/data')
                roots.append(x[2])
                continue
            here, oid = path, tree
            want = 'dir' if k == 'dir' else 'file'
            cands = []
            def walk(p, o):
                for n2, (kind, m, c) in sorted(r.dir(o).items()):
                    if kind == want:
                        cands.append((p + b'/' + n2, c))
                    if kind == 'dir':
                        walk(p + b'/' + n2, c)
            walk(b'', tree)
            # (how a special file is taken depends on its metadata)
            if cands:
                p, c = cands[int(b * len(cands))]
                args.append(path + dec(p))
                roots.append(c)
        except (Missing, KeyError):
            ok = False
            if k != 'absent':
                args.append('main/latest')
    return args, roots, absent, ok

def execute(plan, rec):
    l = Lab(dict(plan['cfg'], frag='none', trace=plan.get('trace')))
    run_pre(l, plan['pre'])
    fs = l.host.fs
    r = Repo(fs)
    must_complete(r, 'at the start')
    if b'refs/heads/main' not in r.refs():
        return
    for o in r.objs:
        if r.type(o) == b'tree':
            for m, n, c in r.tree(o):
                if n.endswith(b'.bupd'):
                    rec.probe('split-tree')
                if n == b'.bupm' and stat.S_ISDIR(m):
                    rec.probe('chunked-bupm')
    now = l.w.epoch + l.w.now
    rec.world(l.w)
    l.close()
    for n, t in enumerate(plan['trials']):
        if plan.get('only') not in (None, n):
            continue
        try:
            trial(plan, rec, fs, now, t)
        except Violation as ex:
            ex.pin = {'only': n}
            raise

def trial(plan, rec, fs0, now, t):
    rec.trials += 1
    cfg = dict(plan['cfg'], epoch=now + 10 * SEC, seed=t['seed'], trace=plan.get('trace'))
    if t.get('with'):
        cfg['preempt'] = t['preempt']
    else:
        cfg['frag'] = 'none'
    l = Lab(cfg, fs=fs0.clone())
    fs = l.host.fs
    texts = prepare(fs, t, rec)
    if t['tagobj']:
        r = Repo(fs)
        main = r.refs()[b'refs/heads/main']
        body = b'object %s\ntype commit\ntag x\ntagger a <b> 1700000000 +0000\n\nx\n' % main.hex().encode()
        lab.add_objects(fs, b'/r', [(b'tag', body)])
        no_bloom(fs)
        rec.probe('tag-object')
        texts.append('a tag object')
    r = Repo(fs)
    if any(x.endswith(b'.midx') for x in fs.lookup(b'/r/objects/pack').entries):
        rec.probe('midx')
    opts = list(t['opts'])
    specs = t['refs'] if t['cmd'] != 'object-links' else []
    args, roots, absent, clear = name_refs(r, specs)
    lost = set()
    if not specs or not args:
        args = []
        roots = sorted(set(r.refs().values()))
    if t['cmd'] == 'refs':
        line = ['validate-refs', *opts, *['-v'] * t['v'], *args]
        links = not opts or '--links' in opts
        bupm = not opts or '--bupm' in opts
    elif t['cmd'] == 'ref-links':
        line = ['validate-ref-links', *['-v'] * t['v'], *args]
        links, bupm = True, False
    else:
        line = ['validate-object-links']
        links = bupm = False
    rec.probe(t['cmd'] if t['cmd'] != 'refs' else 'links' if links else 'bupm')
    if t['v'] and t['cmd'] != 'object-links':
        rec.probe('verbose')
    if args:
        rec.probe('refs')
    if absent:
        rec.probe('absent-ref')
    if t['odd']:
        d = fs.lookup(b'/')
        fs.create(d, b'w[x]*', stat.S_IFLNK | 0o777, target=b'/r')
        line = ['-d', '/w[x]*', *line]
    before = files(fs)
    calm = fs.clone()
    w = l.w
    fault = None
    if t.get('fault'):
        act, a, b, persist = t['fault']
        prog, call = (('git', 'read'), ('git', 'read'), ('git', 'open'), ('git', 'fstat'), ('bup', 'read'), ('bup', 'open'), ('bup', 'mmap'), ('bup', 'listdir'), ('bup', 'stat'), ('bup', 'creat'), ('bup', 'write'))[int(a * 11)]
        fault = Fault({'prog': prog, 'calls': [call], 'under': '/r', 'nth': int(b * b * 60), 'action': act if call == 'read' or act != 'short' else 'err', 'errno': 'EIO', 'persist': persist})
        class Mine(Fault):
            def matches(self, w, p, call, path):
                q = p
                while q is not None and q is not me[0]:
                    q = getattr(q, 'parent', None)
                return q is not None and Fault.matches(self, w, p, call, path)
        fault.__class__ = Mine
        w.faults.append(fault)
    me = [None]
    others = []
    try:
        for k, o in enumerate(t.get('with') or []):
            rng = subrng(t['delay'], f'with{k}')
            if o == 'save':
                x = [b'bup', b'save', b'-n', b'main' if rng.random() < .6 else b'c%d' % k, b'/src']
                kw = {}
            else:
                x = [b'bup', b'split', b'-n', b'sp' if rng.random() < .5 else b'c%d' % k]
                from sim.kernel import SourceDesc
                kw = {'stdin': SourceDesc(gen.content(gen.rand_spec(rng, .5, 60000)))}
            others.append(lab.start(w, l.host, x, **kw))
        if others:
            rec.probe('concurrent')
            n = subrng(t['delay'], 'n').choice((0, 100, 400, 1000, 2000, 4000))
            s0 = w.steps
            w.run_until(lambda: w.steps - s0 >= n or all(p.status is not None for p in others))
        p = lab.start(w, l.host, [b'bup', *map(enc, line)])
        me[0] = p
        if others and t.get('stall') is not None:
            # it stops at some point until the others are done
            l2 = Lab(dict(cfg, preempt=0), fs=calm)
            n = l2.bup(*line).proc.nsys
            l2.close()
            G.world = w
            def stall(w, p, *a):
                rec.probe('stall')
                rec.fault('stalled-process')
                w.block(p, lambda: all(q.dead for q in others))
            class Stall(Fault):
                def matches(self, w, p, call, path):
                    return p is me[0]
            w.faults.append(Stall({'nth': int(t['stall'] * n), 'action': 'call', 'calls': None}, stall))
        w.run(p)
        for q in others:
            w.run(q)
        lab.settle(w)
    except SimHang as ex:
        raise Violation('hang', f'bup {" ".join(line)}: {ex}')
    if w.harness_errors:
        raise HarnessError(str(w.harness_errors[0]))
    res = lab.result(p)
    fault = fault if fault is not None and fault.fired else None
    if fault:
        rec.probe('fault')
        rec.fault('read-' + fault.spec['action'])
        texts.append(f'{fault.spec["action"]} at {fault.where}')
    what = f'bup {" ".join(line)} after {"; ".join(texts) or "nothing"}' + (f' next to {t["with"]}' if others else '') + f' (exit {res.rc})'
    try:
        if t['cmd'] == 'object-links':
            object_links(rec, r, t, res, fault, texts)
        else:
            ref_links(rec, r, roots, t, res, fault, texts, links, bupm, absent, clear)
        if not others and not (fault and res.rc != 0):
            after = files(fs)
            if after != before:
                diff = [x for x in sorted(set(after) | set(before)) if after.get(x) != before.get(x)]
                raise Violation('modified', f'changes {diff[:3]}')
    except Violation as ex:
        ex.msg = f'{what}: {ex.msg} [{res.err[-600:].decode("utf-8", "replace")}]'
        raise
    if not texts:
        rec.probe('intact')
    rec.probe(f'exit-{res.rc}')
    rec.state(t['cmd'], opts, len(args), [x.split(' ')[0:3:2] for x in texts], res.rc, bool(others))
    rec.world(l.w)
    l.close()

def short(s):
    return [o.hex() for o in sorted(s)[:4]]

def ref_links(rec, r, roots, t, res, fault, texts, links, bupm, absent, clear):
    said = {bytes.fromhex(x.decode()) for x in re.findall(rb'(?:^|[\n\r])missing ([0-9a-f]{40})(?= |$)', res.err)}
    nref = len(re.findall(rb'missing (?![0-9a-f]{40} )', res.err))
    less = len(re.findall(rb'(?:^|[\n\r])abridged-bupm ', res.err))
    w = Walk(r, roots)
    broken = w.missing or w.less or w.more
    for o in w.missing:
        rec.probe('lost-object')
    if len(w.missing) > 3:
        rec.probe('many-missing')
    if not w.missing and any(x.startswith(('missing', 'lost', 'rm')) for x in texts):
        rec.probe('unreachable')
    if res.rc == 0:
        if absent:
            raise Violation('false-negative', 'exit status 0 with a ref that does not exist')
        if links and w.missing:
            raise Violation('false-negative', f'exit status 0, but {short(w.missing)} are missing')
        if bupm and (w.less or w.more) and clear and (links or not w.missing):
            raise Violation('false-negative', f'exit status 0, but the metadata of {short(w.less | w.more)} has another number of entries')
        if said or less:
            raise Violation('status', 'exit status 0, although it reports something')
    if t.get('with') and (said or less) and not fault:
        raise Violation('false-positive', f'nothing is missing, but it reports {short(said)}')
    if not fault and said - (w.missing if clear else Walk(r, r.refs().values()).missing):
        raise Violation('false-positive', f'{short(said - w.missing)} are not missing')
    if fault or not clear or w.badtype or any(o not in r.objs for o in r.refs().values()): # (git does not list refs without objects)
        return
    if res.rc not in (0, 1, 2) or res.rc == 2 and not (bupm and w.more):
        raise Violation('failed', 'does not complete')
    if res.rc == 1 and not (said or less or absent):
        raise Violation('false-positive', 'nothing is wrong, but the exit status is 1')
    if links and said != w.missing:
        raise Violation('unreported', f'{short(w.missing - said)} are missing')
    if not links:
        # (reading them is necessary to go on)
        hard = {o for o in w.missing if kinds_wanted(r, o, w) != 'blob'}
        if hard - said:
            raise Violation('unreported', f'{short(hard - said)} are missing')
    if bupm and bool(w.less) != bool(less):
        raise Violation('metadata', f'{short(w.less)} are abridged, {less} reported')
    if bupm and w.more and res.rc != 2:
        raise Violation('metadata', f'{short(w.more)} have too many entries')
    want = 1 if said or less or absent else 0
    if res.rc != (2 if bupm and w.more else want):
        raise Violation('status', f'exit status instead of {want}')
    for o in w.missing:
        rec.probe('lost-' + kinds_wanted(r, o, w))

def kinds_wanted(r, oid, w):
    """What a missing object must have been."""
    for o in w.seen:
        t, c = r.objs[o]
        for x, want in r.links(o) if t != b'blob' else ():
            if x == oid:
                return want.decode() if want else 'commit'
    return 'commit'

def object_links(rec, r, t, res, fault, texts):
    said = set(re.findall(rb'^no ([0-9a-f]{40}) for ([0-9a-f]{40})$', res.out, re.M))
    other = [x for x in res.out.splitlines() if x and not x.startswith(b'no ')]
    if other:
        raise Violation('output', f'prints {other[:2]}')
    want = set()
    tags = 0
    for o, (ty, c) in r.objs.items():
        if ty == b'tag':
            tags += 1
        if ty in (b'tree', b'commit'):
            for x, _ in r.links(o):
                if x not in r.objs:
                    want.add((x.hex().encode(), o.hex().encode()))
    if len(want) > 3:
        rec.probe('many-missing')
    if res.rc == 0 and (want or said):
        raise Violation('false-negative', f'exit status 0, but missing: {sorted(want)[:3]}')
    if not fault:
        if said - want:
            raise Violation('false-positive', f'reports {sorted(said - want)[:3]}')
        if t.get('with') is None and want - said:
            raise Violation('unreported', f'{sorted(want - said)[:3]}')
        if res.rc != (1 if want else 0):
            raise Violation('status', f'exit status instead of {int(bool(want))}')
        if res.err.count(b'skipping tag object') != tags:
            raise Violation('tag', 'does not mention the tag object')
    elif res.rc == 1 and not said:
        raise Violation('status', 'exit status 1 without a report')
