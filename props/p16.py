"""get transfers exactly what was asked for."""

from .common import *
from .p04 import bad_packs

ID = 'P16'
RULE = ('A plan is a source repository (saves, splits, commits with unusual authors, dates, zones and messages, tags of commits, trees and files), a destination that '
        'holds nothing, some of the same data or diverged branches, and get commands with one to five targets (ff, append, pick, force-pick, new-tag, replace, unnamed; '
        'branches, saves, latest, tags, directories; implicit and explicit, distinct and repeated destinations), local, to or from another machine. An executable '
        'model says what each destination ref must hold; everything it refers to must be there. Some runs lose source objects, some are disturbed by system call '
        'errors, kills, power loss or broken connections: then each ref must be at its old or its new value and complete, nothing present may lack '
        'what it refers to, and the command must complete when repeated. Distinct non-trivial: different (command, prior destination, outcome) combinations.')
ASSUMPTIONS = ['one writer at a time', 'git update-ref is atomic']
SHRINK = ['cmds', 'cmds.*.targets', 'src', 'dst', 'src.*.1']
PROBES = ['ff', 'append', 'pick', 'force-pick', 'new-tag', 'replace', 'unnamed', 'local', 'to-remote', 'from-remote', 'same-dest-twice', 'refused', 'rc0', 'tree', 'blob', 'odd',
          'missing', 'missing-noticed', 'ignore-missing', 'fault', 'image', 'cut', 'failed', 'survived', 'rerun', 'config-differs', 'no-ff']
S, R = b'/s', b'/r'
METHODS = ('ff', 'ff', 'append', 'append', 'pick', 'force-pick', 'new-tag', 'replace', 'unnamed')
BR = ('main', 'b2', 'odd', 'sp')
WHO = (b'A U Thor <a@h.example>', b'x <y@z>', b'J\xe4rg \xff <j@h>', b'O\'Neil (x) <o@n>', b'ab <a b@c>')
ZONES = (b'+0000', b'-0330', b'+0545', b'-0030', b'+1400', b'-1200', b'+0059')
MSGS = (b'', b'\n', b'bup save\n\nBup-Argv: x\n', b'no newline', b'\n\nleading', b'\xff\xfe', b'tree 0000\nparent 1\n\nauthor', b'trailing  \n\n\n', b'a\0b')

def target(rng, have, tags, dest=None):
    """A target, mostly one that makes sense."""
    m = rng.choice(METHODS)
    if dest is not None and m == 'unnamed':
        m = 'append'
    if rng.random() < .1: # anything
        have, tags = BR, ['tc', 'tt', 'tb', 'to']
        kinds = ('branch', 'save', 'latest', 'tag', 'dir', 'git')
    else:
        kinds = {'ff': ('branch', 'branch', 'save', 'latest', 'tag'), 'append': ('branch', 'save', 'tag', 'dir', 'latest'), 'pick': ('save', 'latest', 'tag'),
                 'force-pick': ('save', 'latest', 'tag'), 'new-tag': ('branch', 'save', 'tag', 'dir'), 'replace': ('branch', 'save', 'tag', 'latest', 'dir'),
                 'unnamed': ('branch', 'save', 'tag', 'dir', 'git')}[m]
        if m in ('ff', 'pick', 'force-pick', 'append'):
            tags = [t for t in tags if t in ('tc', 'to')]
        if not tags:
            kinds = tuple(k for k in kinds if k != 'tag')
    k = rng.choice(kinds)
    b = rng.choice(have)
    if k == 'save':
        src = ['save', b, rng.randrange(4)]
    elif k == 'tag':
        src = ['tag', rng.choice(tags)]
    elif k == 'dir':
        src = ['dir', rng.choice(BR[:2]), rng.randrange(3)]
    elif k == 'git':
        src = ['git', rng.choice(('main', 'oid', 'tree'))]
    else:
        src = [k, b]
    if m == 'unnamed':
        return [m, src, None]
    if dest is None and (rng.random() < .65 or k in ('tag', 'dir')):
        tag = m == 'new-tag' or (m in ('pick', 'force-pick', 'replace') and (k == 'dir' or (k == 'tag' and src[1] in ('tt', 'tb')) or rng.random() < .4))
        dest = '.tag/' + rng.choice(('x', 'y', 'z', 'tc', 'dt', 'db')) if tag else rng.choice(('main', 'main', 'b2', 'new', 'new', 'd1', 'odd'))
        if m == 'ff' and rng.random() < .5:
            dest = rng.choice(('new', b))
    return [m, src, dest]

def plan(rng, tier, i):
    mode = ('local', 'to', 'local', 'from')[i % 4]
    cfg = base_cfg(rng, srv=mode != 'local')
    cfg['config'] = ''
    conf = repo_config(rng)
    if mode != 'local':
        cfg['frag'] = rng.choice(('none', 'mixed'))
        cfg['preempt'] = rng.choice((0, .1))
    g = treegen(rng, big=.1, maxsize=40000)
    src = [['edit', g.edits(rng.randint(3, 12))], ['save', 'main']]
    for _ in range(rng.randint(1, 6)):
        x = rng.random()
        if x < .5:
            src += [['edit', g.edits(rng.randint(1, 5))], ['save', rng.choice(('main', 'main', 'b2'))]]
        elif x < .7:
            src.append(['split', 'sp', gen.rand_spec(rng, .3, 30000)])
        else:
            src.append(['odd', rng.choice(('odd', 'odd', 'main', 'b2')), rng.randrange(len(WHO)), rng.randrange(len(ZONES)), rng.randrange(len(MSGS)), rng.randrange(1 << 31)])
    for t in ('tc', 'tt', 'tb', 'to'):
        if rng.random() < .7:
            src.append(['tag', t, rng.choice(BR[:3] if t != 'tc' else BR[:1]), rng.randrange(3)])
    dst = []
    for _ in range(rng.choice((0, 1, 1, 2, 3))):
        x = rng.random()
        if x < .4:
            dst.append(['get', rng.choice(('ff', 'append', 'unnamed')), rng.choice(BR), rng.randrange(3), rng.choice(('main', 'b2', 'd1', 'odd'))])
        elif x < .55:
            dst.append(['own', rng.choice(('main', 'd1', 'new'))])
        elif x < .7:
            dst.append(['copypacks', rng.random()])
        elif x < .85:
            dst.append(['tag', rng.choice(('x', 'dt', 'tc')), rng.choice(('main', 'b2', 'd1')), 0])
        else:
            dst.append(['objtag', rng.choice(('x', 'db', 'y')), rng.choice(('tree', 'blob'))])
    cmds = []
    have = sorted({o[1] for o in src if o[0] in ('save', 'split', 'odd')})
    tags = [o[1] for o in src if o[0] == 'tag' and o[2] in have]
    for _ in range(rng.randint(1, 4)):
        ts = [target(rng, have, tags)]
        more = rng.choice((0, 0, 0, 1, 1, 2, 4))
        again = ts[0][2] if rng.random() < .5 else None
        for _ in range(more):
            ts.append(target(rng, have, tags, again))
        c = {'targets': ts, 'seed': rng.randrange(1 << 30), 'opts': rng.choice(([], [], ['-c', '-t', '--print-tags'], ['-v'], ['-9'])), 'mode': rng.choice((None, None, None, 'copy'))}
        x = rng.random()
        if x < .3:
            c['fault'] = rng.randint(1, 3)
        elif x < .5:
            c['crash'] = rng.choice((.03, .1))
        elif x < .6 and mode != 'local':
            c['cut'] = rng.randint(1, 3)
        elif x < .68:
            c['lose'] = rng.randrange(1 << 30)
            c['ignore'] = rng.random() < .3
        cmds.append(c)
    return {'cfg': cfg, 'mode': mode, 'conf': conf, 'dconf': conf if rng.random() < .85 else repo_config(rng), 'src': src, 'dst': dst, 'cmds': cmds}

def sample(p):
    return {'mode': p['mode'], 'src': [o if o[0] != 'edit' else ['edit', len(o[1])] for o in p['src']], 'dst': p['dst'], 'cmds': p['cmds']}

# ---- building the repositories

def frozen(fs, path):
    r = Repo(fs, path)
    refs = r.refs()
    r.refs = lambda: refs
    return r

class Setup:
    def __init__(self, plan, rec):
        l = self.l = Lab(dict(plan['cfg'], trace=plan.get('trace')))
        self.mode = plan['mode']
        # where the repositories are, which machine runs bup
        self.sh = l.srv if self.mode == 'from' else l.host
        self.dh = l.srv if self.mode == 'to' else l.host
        self.rec = rec
        w = l.w
        lab.ok(lab.bup(w, self.sh, '-d', S, 'init'), 'init')
        l.add_config(self.sh, S, plan['conf'])
        l.add_config(self.dh, R, plan['dconf'])
        for op in plan['src']:
            self.source(op)
            w.now += 2 * SEC
        for op in plan['dst']:
            self.dest(op)
            w.now += 2 * SEC
        if w.harness_errors:
            raise HarnessError(str(w.harness_errors[0]))
        for h in w.hosts.values():
            h.fs.sync_all()

    def src(self):
        return frozen(self.sh.fs, S)

    def dst(self):
        return frozen(self.dh.fs, R)

    def run(self, host, repo, *args, **kw):
        r = lab.bup(self.l.w, host, b'-d', repo, *args, **kw)
        if r.rc:
            raise SetupFailed(['bup', [str(a) for a in args]], r)

    def source(self, op):
        l, h = self.l, self.sh
        if op[0] == 'edit':
            for e in op[1]:
                gen.apply_edit(h.fs, SRC, e)
                l.w.now += 1_000_000
        elif op[0] == 'save':
            self.run(h, S, 'index', '-f', '/tmp/i', '/src')
            self.run(h, S, 'save', '-f', '/tmp/i', '-n', op[1], '/src')
        elif op[0] == 'split':
            self.run(h, S, 'split', '-n', op[1], stdin=gen.content(op[2]))
        elif op[0] == 'odd':
            self.rec.probe('odd')
            r = self.src()
            ref = b'refs/heads/' + enc(op[1])
            cur = r.refs().get(ref)
            main = r.refs().get(b'refs/heads/main')
            if main is None:
                return
            tree = r.commit(main)['tree']
            c = b'tree ' + tree.hex().encode() + b'\n'
            if cur:
                c += b'parent ' + cur.hex().encode() + b'\n'
            who, z = WHO[op[2] % len(WHO)], ZONES[op[3] % len(ZONES)]
            c += b'author %s %d %s\ncommitter %s %d %s\n' % (who, op[5], z, b'C <c@d>', op[5] // 2, z) + b'\n' + MSGS[op[4] % len(MSGS)]
            [o] = lab.add_objects(h.fs, S, [(b'commit', c)])
            lab.set_ref(h.fs, S, ref, o)
        elif op[0] == 'tag':
            r = self.src()
            o = r.refs().get(b'refs/heads/' + enc(op[2]))
            if o is None:
                return
            hist = r.history(o)
            o = hist[min(op[3], len(hist) - 1)]
            if op[1] == 'tt':
                o = r.commit(o)['tree']
            elif op[1] == 'tb':
                bl = sorted(x for x in r.closure(o)[0] if r.type(x) == b'blob')
                if not bl:
                    return
                o = bl[0]
            lab.set_ref(h.fs, S, b'refs/tags/' + enc(op[1]), o)

    def dest(self, op):
        l, h = self.l, self.dh
        r = self.dst()
        if op[0] == 'get': # what an earlier get would have left
            s = self.src()
            o = s.refs().get(b'refs/heads/' + enc(op[2]))
            if o is None:
                return
            hist = s.history(o)
            o = hist[min(op[3], len(hist) - 1)]
            seen, _ = s.closure(o)
            lab.add_objects(h.fs, R, [s.objs[x] for x in sorted(seen)])
            if op[1] == 'ff':
                lab.set_ref(h.fs, R, b'refs/heads/' + enc(op[4]), o)
            elif op[1] == 'append':
                cur = r.refs().get(b'refs/heads/' + enc(op[4]))
                c = b'tree ' + s.commit(o)['tree'].hex().encode() + b'\n' + (b'parent ' + cur.hex().encode() + b'\n' if cur else b'')
                c += b'author a b <c@d> 1 +0000\ncommitter a b <c@d> 1 +0000\n\nx'
                [o] = lab.add_objects(h.fs, R, [(b'commit', c)])
                lab.set_ref(h.fs, R, b'refs/heads/' + enc(op[4]), o)
        elif op[0] == 'own':
            self.run(h, R, 'split', '-n', op[1], stdin=b'own data %d' % l.w.now)
        elif op[0] == 'copypacks': # part of the source, complete in itself: no parents without their children
            s = self.src()
            closed = [o for o in sorted(s.objs) if not s.closure(o)[1]]
            some = set()
            rng = subrng(int(op[1] * 1e9), 'copy')
            for o in closed:
                if rng.random() < .05:
                    some |= s.closure(o)[0]
            if some:
                lab.add_objects(h.fs, R, [s.objs[x] for x in sorted(some)])
        elif op[0] == 'tag':
            o = r.refs().get(b'refs/heads/' + enc(op[2]))
            if o is not None:
                lab.set_ref(h.fs, R, b'refs/tags/' + enc(op[1]), o)
        elif op[0] == 'objtag':
            os = [o for o in sorted(r.objs) if r.type(o) == op[2].encode()]
            if os:
                lab.set_ref(h.fs, R, b'refs/tags/' + enc(op[1]), os[0])

# ---- the model

class Refused(Exception):
    pass

class Unclear(Exception):
    """The documentation doesn't say."""

def resolve(s, src):
    """(kind, oid, name for bup, implicit destination branch or tag path)"""
    refs = s.refs()
    k = src[0]
    if k == 'git':
        o = refs.get(b'refs/heads/main')
        if o is None:
            raise Refused
        if src[1] == 'main':
            return 'commit', o, b'git:main', None
        if src[1] == 'oid':
            return 'commit', o, b'git:' + o.hex().encode(), None
        t = s.commit(o)['tree']
        return 'tree', t, b'git:' + t.hex().encode(), None
    if k == 'tag':
        o = refs.get(b'refs/tags/' + enc(src[1]))
        name = b'.tag/' + enc(src[1])
        if o is None:
            return None, None, name, None
        return s.type(o).decode(), o, name, name
    b = enc(src[1])
    o = refs.get(b'refs/heads/' + b)
    if k == 'branch':
        return ('branch' if o else None), o, b, b
    if o is None:
        return None, None, b + b'/latest', None
    hist = s.history(o)
    if k == 'latest':
        return 'save', o, b + b'/latest', b
    n = min(src[2], len(hist) - 1)
    name = b + b'/' + lab.save_names(s, hist)[n]
    if k == 'save':
        return 'save', hist[n], name, b
    # a directory
    d = s.dir(s.commit(hist[n])['tree'])
    x = d.get(b'src')
    if x is None or x[0] != 'dir':
        raise Unclear # (a commit of something else)
    return 'tree', x[2], name + b'/src', None

def key(r, o):
    """What a copied commit keeps."""
    c = r.commit(o)
    return c['tree'], c['author'], c['msg']

class Model:
    """Destination refs: a list of commit keys, newest last, with ids where they are known; or an object."""
    def __init__(self, s, d):
        self.s, self.d = s, d
        self.refs = {}
        for n, o in d.refs().items():
            if d.type(o) == b'commit':
                self.refs[n] = [(x, key(d, x)) for x in reversed(d.history(o))]
            else:
                self.refs[n] = o
        self.need = set()
        self.start = dict(self.refs)

    def chain(self, o):
        return [(x, key(self.s, x)) for x in reversed(self.s.history(o))]

    def apply(self, m, src, dest):
        kind, o, name, implicit = resolve(self.s, src)
        if kind is None:
            if m == 'unnamed' and self.ignore:
                return
            raise Refused
        if src[0] == 'git' and m != 'unnamed':
            raise Refused
        if m == 'unnamed':
            self.need.add(o)
            return
        if dest is None:
            if m == 'new-tag':
                if not (implicit or b'').startswith(b'.tag/'):
                    raise Refused
            elif m == 'replace':
                if src[0] not in ('branch', 'tag'):
                    raise Refused
            elif m in ('pick', 'force-pick') and src[0] == 'branch':
                raise Refused
            dest = implicit
            if dest is None:
                raise Refused
        else:
            dest = enc(dest)
        tag = dest.startswith(b'.tag/')
        ref = b'refs/tags/' + dest[5:] if tag else b'refs/heads/' + dest
        cur = self.refs.get(ref)
        commitish = kind in ('branch', 'save', 'commit')
        if m == 'ff':
            if tag or not commitish:
                raise Refused
            new = self.chain(o)
            if cur is not None and cur[-1][0] not in [x for x, _ in new]:
                raise Refused
            self.refs[ref] = new
        elif m == 'append':
            if tag or kind == 'blob':
                raise Refused
            if commitish:
                add = [(None, k) for _, k in self.chain(o)]
            else:
                add = [(None, (o, None, None))]
            self.refs[ref] = (cur or []) + add
        elif m in ('pick', 'force-pick'):
            if kind not in ('save', 'commit'):
                raise Refused
            if tag and cur is not None and m == 'pick':
                raise Refused
            base = cur if isinstance(cur, list) else []
            self.refs[ref] = base + [(None, key(self.s, o))]
        elif m == 'new-tag':
            if not tag or cur is not None:
                raise Refused
            self.refs[ref] = self.chain(o) if commitish else o
        elif m == 'replace':
            if not tag and not commitish:
                raise Refused
            self.refs[ref] = self.chain(o) if commitish else o
        self.touched.append((ref, m))

    def run(self, targets):
        self.touched = []
        for m, src, dest in targets:
            self.apply(m, src, dest)

def same(r, o, want):
    """Does a ref of the destination hold what it should?"""
    if isinstance(want, bytes):
        return o == want
    if o is None or r.type(o) != b'commit':
        return False
    hist = list(reversed(r.history(o)))
    if len(hist) != len(want):
        return False
    for x, (oid, (tree, author, msg)) in zip(hist, want):
        if oid is not None:
            if x != oid:
                return False
            continue
        t, a, m = key(r, x)
        if t != tree or (author is not None and (a != author or m != msg)):
            return False
    return True

def describe_ref(r, o):
    if o is None:
        return 'nothing'
    if r.type(o) != b'commit':
        return f'{r.type(o)} {o.hex()[:10]}'
    return 'commits ' + ' '.join(x.hex()[:8] + ':' + r.commit(x)['tree'].hex()[:6] for x in reversed(r.history(o)))

def describe_want(w):
    if isinstance(w, bytes):
        return 'object ' + w.hex()[:10]
    return 'commits ' + ' '.join((x.hex()[:8] if x else '(new)') + ':' + k[0].hex()[:6] for x, k in w)

def dangling(r, but=()):
    """An object without something it refers to (everything relies on there being none)."""
    for o in sorted(r.objs):
        if o in but:
            continue
        for x, _ in r.links(o):
            if x not in r.objs:
                return f'{r.type(o).decode()} {o.hex()} lacks {x.hex()}'

# ---- running

def argv(st, c, s):
    a = ['get']
    if st.mode == 'to':
        a += ['-s', S, '-r', 'srv:/r']
    elif st.mode == 'from':
        a += ['-s', S]
    else:
        a += ['-s', S]
    a += c['opts']
    if c['mode']:
        a.append('--' + c['mode'])
    for m, src, dest in c['targets']:
        name = resolve(s, src)[2]
        if c.get('ignore') and m == 'unnamed':
            a.append('--ignore-missing')
        a += ['--' + m + (':' if dest is not None and m != 'unnamed' else ''), name]
        if dest is not None and m != 'unnamed':
            a.append(enc(dest))
        if c.get('ignore') and m == 'unnamed':
            a.append('--no-ignore-missing')
    if a[-1] == '--no-ignore-missing':
        a.pop()
    return [x if isinstance(x, bytes) else enc(x) for x in a]

def launch(st, l, a):
    G.world = l.w
    if st.mode == 'from':
        return lab.start(l.w, l.host, [b'bup', b'on', b'srv', *a])
    return lab.start(l.w, l.host, [b'bup', *a])

def execute(plan, rec):
    st = Setup(plan, rec)
    rec.probe({'local': 'local', 'to': 'to-remote', 'from': 'from-remote'}[st.mode])
    l = st.l
    cfg = dict(plan['cfg'], trace=plan.get('trace'))
    differs = effective(plan['conf']) != effective(plan['dconf'])
    for n, c in enumerate(plan['cmds']):
        c = dict(c)
        if differs:
            c['mode'] = 'copy' if c['seed'] % 3 else None
        try:
            one(plan, rec, st, n, c, cfg, differs)
        except Unclear:
            continue
    G.world = l.w
    rec.world(l.w)
    l.close()

def effective(conf):
    from sim.programs import parse_config
    d = {}
    for ln in conf.splitlines():
        if '=' in ln:
            k, v = ln.split('=')
            d[k.strip()] = v.strip()
    return d.get('files'), d.get('trees')

def one(plan, rec, st, n, c, cfg, differs):
    l = st.l
    if not c['targets']:
        return
    s, d = st.src(), st.dst()
    m = Model(s, d)
    m.ignore = c.get('ignore')
    for t in c['targets']:
        rec.probe(t[0])
        k = resolve(s, t[1])[0]
        if k in ('tree', 'blob'):
            rec.probe(k)
    refused = False
    try:
        m.run(c['targets'])
    except Refused:
        refused = True
    if differs:
        rec.probe('config-differs')
        if not c['mode']:
            refused = True # (rewrite or copy must be chosen)
    dests = [r for r, _ in m.touched]
    if len(set(dests)) < len(dests):
        rec.probe('same-dest-twice')
        tags = [(r, x) for r, x in m.touched if r.startswith(b'refs/tags/')]
        if any(x not in ('replace', 'force-pick') and r in [y for y, _ in tags[:i]] for i, (r, x) in enumerate(tags)):
            refused = True
    a = argv(st, c, s)
    what = f'get command {n} ({st.mode}): {b" ".join(a).decode("latin-1")}'
    if c.get('lose') is not None and not refused:
        lost(plan, rec, st, c, cfg, a, m, what)
    start = {h: x.fs.clone() for h, x in l.w.hosts.items()}
    now = l.w.epoch + l.w.now
    sizes, calls = [], {}
    def count(p, call, path, info):
        if not p.aux.get('startup'):
            k = (p.name().split()[0] if p.prog != b'git' else p.name(), p.host.name, call)
            calls[k] = calls.get(k, 0) + 1
    links = []
    l.w.observers.append(count)
    l.w.link_hook = links.append
    p = launch(st, l, a)
    r = finish(l, p, what)
    l.w.observers.clear()
    l.w.link_hook = None
    after = st.dst()
    judge(rec, what, r, s, d, after, m, refused, st)
    rec.state(st.mode, tuple((t[0], t[1][0], t[2]) for t in c['targets']), tuple(sorted((k, len(v) if isinstance(v, list) else 1) for k, v in m.start.items())), r.rc)
    if r.rc == 0:
        prints(c, m, r, after, what)
    if st.src().refs() != s.refs() or set(st.src().objs) != set(s.objs):
        raise Violation('source', f'{what}: the source changed')
    if r.rc:
        return
    if c.get('fault') or c.get('crash') or c.get('cut'):
        disturb(plan, rec, st, c, cfg, a, m, s, d, what, start, now, calls, links)

def finish(l, p, what):
    try:
        l.w.run(p)
        lab.settle(l.w)
    except SimHang as ex:
        raise Violation('hang', f'{what}: {ex}')
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    return lab.result(p)

def err(r):
    return f'exit {r.rc}: {r.err[-700:].decode("utf-8", "replace")}'

def judge(rec, what, r, s, d, after, m, refused, st):
    basic(what, d, after)
    refs0, refs1 = d.refs(), after.refs()
    if refused:
        rec.probe('refused')
        if any(t[1] == 'ff' for t in m.touched):
            rec.probe('no-ff')
        if r.rc == 0:
            raise Violation('accepted', f'{what}: exit 0, but it should have been refused')
        if refs0 != refs1:
            raise Violation('ref', f'{what}: refused, but refs changed: {refs_str(refs0)} -> {refs_str(refs1)}')
        return
    if r.rc:
        raise Violation('failed', f'{what}: {err(r)}')
    rec.probe('rc0')
    check_refs(what, after, m, refs0, refs1)

def check_refs(what, after, m, refs0, refs1):
    for n in sorted(set(refs0) | set(refs1) | set(m.refs)):
        if n not in m.refs:
            raise Violation('ref', f'{what}: {dec(n)} appeared')
        if not same(after, refs1.get(n), m.refs[n]):
            raise Violation('ref', f'{what}: {dec(n)} holds {describe_ref(after, refs1.get(n))} instead of {describe_want(m.refs[n])}')
    for o in sorted(m.need):
        miss = after.closure(o)[1]
        if miss:
            raise Violation('incomplete', f'{what}: {sorted(miss)[0].hex()} was not copied')

def basic(what, d, after):
    must_complete(after, what)
    x = [b for b in bad_packs(after) if b not in bad_packs(d)]
    if x:
        raise Violation('pack', f'{what}: {x[0]}')
    gone = set(d.objs) - set(after.objs)
    if gone:
        raise Violation('lost', f'{what}: object {sorted(gone)[0].hex()} is gone')
    x = dangling(after)
    if x:
        raise Violation('dangling', f'{what}: {x}')

def prints(c, m, r, after, what):
    if '-c' not in c['opts']:
        return
    refs = after.refs()
    ids = r.out.split()
    for n in {x for x, _ in m.touched}:
        if refs[n].hex().encode() not in ids:
            raise Violation('output', f'{what}: the new value {refs[n].hex()} of {dec(n)} was not printed')

def lost(plan, rec, st, c, cfg, a, m, what):
    """An object of the source is missing."""
    rng = subrng(c['seed'], 'lose')
    s0 = st.src()
    # (what has to be copied)
    need = set()
    d = st.dst()
    for t in c['targets']:
        o = resolve(s0, t[1])[1]
        if o is None:
            continue
        if t[0] == 'append' and t[1][0] != 'dir' or t[0] in ('ff', 'replace', 'new-tag', 'unnamed') or t[1][0] == 'dir':
            need |= s0.closure(o)[0]
        else:
            need |= s0.closure(s0.commit(o)['tree'])[0] | {o}
    need = sorted(o for o in need if o not in d.objs and s0.type(o) in (b'blob', b'tree'))
    if not need or len(s0.objs) < 2:
        return
    gone = rng.choice(need)
    # rebuild the source's packs without it
    l = Lab(dict(cfg, epoch=st.l.w.epoch + st.l.w.now), fs=st.l.host.fs.clone())
    if st.l.srv:
        l.use_fs('srv', st.l.srv.fs.clone())
    fs = l.w.hosts[st.sh.name].fs
    dd = fs.lookup(S + b'/objects/pack')
    for nme, i in sorted(dd.entries.items()):
        fs.unlink(dd, nme, i)
    lab.add_objects(fs, S, [v for o, v in sorted(s0.objs.items()) if o != gone])
    rec.probe('missing')
    rec.trials += 1
    rec.fault('object-missing')
    p = launch(st, l, a)
    what = f'{what}, without {s0.type(gone).decode()} {gone.hex()}'
    r = finish(l, p, what)
    after = Repo(l.w.hosts[st.dh.name].fs, R)
    d0 = d.refs()
    x = bad_packs(after)
    if r.rc == 0:
        raise Violation('missing', f'{what}: exit 0')
    rec.probe('missing-noticed')
    ig = c.get('ignore') and any(t[0] == 'unnamed' for t in c['targets'])
    if ig:
        rec.probe('ignore-missing')
    else:
        must_complete(after, what)
        if after.refs() != d0:
            raise Violation('ref', f'{what}: failed, but refs changed')
        x = dangling(after)
        if x:
            raise Violation('dangling', f'{what}: {x}')
    rec.world(l.w)
    l.close()

ERR = {'write': ('EIO', 'ENOSPC'), 'read': ('EIO',), 'open': ('EIO', 'ENOSPC', 'EMFILE'), 'fsync': ('EIO',), 'rename': ('EIO', 'ENOSPC'), 'mkdir': ('ENOSPC',), 'unlink': ('EIO',),
       'rmdir': ('EIO',), 'stat': ('EIO',), 'lstat': ('EIO',), 'mmap': ('ENOMEM',), 'fork': ('EAGAIN',), 'spawn': ('EAGAIN',), 'pipe': ('EMFILE',), 'listdir': ('EIO',), 'ftruncate': ('EIO',)}

def disturb(plan, rec, st, c, cfg, a, m, s, d, what, start, now, calls, links):
    rng = subrng(c['seed'], 'disturb')
    pin = plan.get('fault')
    trials = []
    if c.get('fault'):
        for _ in range(c['fault']):
            k = rng.choice(sorted(calls))
            spec = {'prog': k[0], 'host': k[1], 'calls': [k[2]], 'nth': rng.randrange(calls[k]), 'persist': rng.random() < .15}
            x = rng.random()
            if k[2] in ('read', 'write') and x < .2:
                spec['action'] = 'short'
            elif x < .5 or k[2] not in ERR:
                spec['action'] = 'kill'
            else:
                spec['action'], spec['errno'] = 'err', rng.choice(ERR[k[2]])
            trials.append(('fault', spec))
    if c.get('crash'):
        trials.append(('crash', c['crash']))
    if c.get('cut') and links:
        for _ in range(c['cut']):
            k = rng.randrange(len(links))
            q = rng.randrange(2)
            trials.append(('cut', [k, q, rng.randrange(links[k].pipes[q].total + 1)]))
    for kind, spec in trials:
        l = Lab(dict(cfg, epoch=now, seed=rng.randrange(1 << 30)), fs=start['host'].clone())
        if 'srv' in start:
            l.use_fs('srv', start['srv'].clone())
        dh = l.w.hosts[st.dh.name]
        rec.trials += 1
        cr = None
        if kind == 'fault':
            f = Fault(spec)
            l.w.faults.append(f)
            rec.probe('fault')
        elif kind == 'crash':
            def image(img, where):
                rec.probe('image')
                r2 = Repo(img, R)
                half(what, r2, m, d)
            cr = Crashes(l, dh, sampler(c['seed'], spec), image, rec=rec)
            l.w.observers.append(cr)
        else:
            ls = []
            def hook(k):
                ls.append(k)
                if len(ls) - 1 == spec[0]:
                    q = k.pipes[spec[1]]
                    q.cut_after = spec[2]
                    q.on_cut = lambda pipe: k.cut()
            l.w.link_hook = hook
            rec.probe('cut')
            rec.fault('connection-cut')
        p = launch(st, l, a)
        w2 = f'{what}, {kind} {spec}'
        r = finish(l, p, w2)
        l.w.faults.clear()
        l.w.observers.clear()
        l.w.link_hook = None
        if cr:
            cr.check()
        if kind == 'fault' and f.fired:
            rec.fault(spec['action'] + ('-' + spec.get('errno', '') if spec.get('errno') else ''))
            w2 += f' at {f.where}'
        after = Repo(dh.fs, R)
        half(w2, after, m, d)
        if r.rc == 0:
            rec.probe('survived')
            check_refs(w2, after, m, d.refs(), after.refs())
        else:
            rec.probe('failed')
        # and again, if it still makes sense
        if r.rc and after.refs() == d.refs():
            rec.probe('rerun')
            r = finish(l, launch(st, l, a), w2 + ', repeated')
            if r.rc:
                raise Violation('rerun', f'{w2}, then repeated: {err(r)}')
            after = Repo(dh.fs, R)
            half(w2, after, m, d)
            check_refs(w2, after, m, d.refs(), after.refs())
        rec.world(l.w)
        l.close()

def half(what, after, m, d):
    """Each ref has its old or its new value."""
    must_complete(after, what)
    refs0, refs1 = d.refs(), after.refs()
    for n in sorted(set(refs0) | set(refs1)):
        o = refs1.get(n)
        if o == refs0.get(n):
            continue
        if n not in m.refs or o is None or not same(after, o, m.refs[n]):
            raise Violation('ref', f'{what}: {dec(n)} holds {describe_ref(after, o)} instead of {describe_ref(d, refs0.get(n))} or {describe_want(m.refs.get(n, b""))}')
    x = dangling(after)
    if x:
        raise Violation('dangling', f'{what}: {x}')
