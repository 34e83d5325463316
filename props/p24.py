"""get --rewrite and --repair."""

import re, stat

from .common import *
from .p12 import Remote
from .p16 import dangling, frozen, WHO, ZONES, MSGS
from .p23 import prepare, bupm_records, Walk, encode_tree, WHAT
from sim import programs

ID = 'P24'
RULE = ('A plan is a source repository (saves of one or two branches, commits as git would make them, unusual authors and messages) under one split configuration, and trials: objects of any kind are '
        'lost, or directory metadata abridged, and get --rewrite, --repair or --copy appends branches and picks saves into a destination with another configuration that is empty, has data of its own or what an '
        'earlier get wrote before the loss; one to four targets, excludes, repair ids, to a local repository, through ssh, a bup daemon or bup on; some are disturbed by errors, kills, power loss, and repeated. '
        'An independent reader decodes source and destination: paths, content, every metadata record, authors, messages and the account of the repairs. Distinct non-trivial: different (modes, destination, damage, '
        'kinds of repairs, outcome) combinations.')
ASSUMPTIONS = ['the memo database is private to the command and is kept in memory', 'one writer at a time', 'git update-ref is atomic']
SHRINK = ['src', 'src.*.1', 'trials', 'trials.*.damage', 'trials.*.targets', 'trials.*.dst']
PROBES = ['rewrite', 'repair', 'copy', 'intact', 'repaired', 'refused', 'replaced-file', 'replaced-tree', 'replaced-symlink', 'link-blob-restored', 'meta-lost', 'excluded', 'multi', 'branch', 'save', 'latest',
          'tag', 'to-existing', 'git-made', 'odd', 'chunked', 'split-tree', 'unsplit', 'chunked-bupm', 'local', 'ssh', 'bup', 'on', 'fault', 'image', 'failed', 'survived', 'rerun', 'roundtrip', 'restored', 'special']
S = b'/r'
ERR = ('EIO', 'ENOSPC', 'EMFILE')
MSGS = tuple(m for m in MSGS if b'\0' not in m)

def split_conf(rng):
    return '[bup "split"]\n\tfiles = legacy:%d\n' % rng.choice((13, 13, 14, 16)) + ('\ttrees = %s\n' % rng.choice(('true', 'true', 'false')) if rng.random() < .8 else '') + \
        ('[pack]\n\tpackSizeLimit = %d\n' % rng.choice((3000, 20000, 60000)) if rng.random() < .4 else '')

def damage(rng):
    x = rng.random()
    if x < .78:
        return ['missing', rng.choice(WHAT + ('link',)), 'needed', rng.random(), rng.randrange(1 << 30)]
    if x < .82:
        return [rng.choice(('rmpack+', 'rmidx')), 'any', 'needed', rng.random(), rng.randrange(1 << 30)]
    return ['bupm', 'less', rng.random(), rng.random(), rng.choice((1, 1, 1, 2, 5)), rng.random() < .3]

def target(rng, modes, dests):
    mode = rng.choice(modes)
    m = rng.choice(('append', 'append', 'pick', 'pick', 'force-pick'))
    src = ['branch', rng.random()] if m == 'append' else [rng.choice(('save', 'save', 'latest')), rng.random(), rng.random()]
    d = rng.choice(dests)
    if m != 'append' and rng.random() < .2:
        d = '.tag/' + rng.choice(('x', 'y'))
    ex = [rng.choice(('file', 'file', 'dir', 'below', 'name')), rng.random(), rng.random()]
    return {'mode': mode, 'm': m, 'src': src, 'dest': d, 'ex': [ex] if rng.random() < .2 else [], 'id': rng.choice((None, None, None, 'fix 1', '~id:x'))}

def again(rng, t):
    ex = [[rng.choice(('file', 'file', 'dir', 'below', 'name')), rng.random(), rng.random()]]
    n = rng.random()
    res = []
    for i in range(rng.choice((2, 3, 3, 4))):
        x = dict(t, mode='rewrite', m='append' if t['m'] == 'append' else 'pick', dest=rng.choice(('new', 'd1', 'main')), ex=ex if (i + (n < .4)) % 2 == 0 else [], id=None)
        if rng.random() < .3:
            x['src'] = [t['src'][0], *(rng.random() for _ in t['src'][1:])]
        res.append(x)
    return res

def plan(rng, tier, i):
    cfg = base_cfg(rng, srv=True)
    cfg['config'] = ''
    g = treegen(rng, rich=rng.random() < .6, big=.25, maxsize=70000)
    src = []
    for n in range(rng.choice((1, 2, 2, 3))):
        e = g.edits(rng.randint(4, 16) if n == 0 else rng.randint(1, 4))
        if n == 0 and rng.random() < .4:
            e.append(['many', '', rng.choice(('m', '*')), rng.choice((60, 300, 600, 900)), rng.randrange(1000)])
            gen.apply_edit(g.fs, g.base, e[-1])
        if rng.random() < .4:
            own = [['chown', gen.dec(x), rng.choice((0, 1000, 1001, 4242)), rng.choice((0, 50, 1000, 777))] for x in g.all() if rng.random() < .5][:30]
            e += [x for x in own if gen.apply_edit(g.fs, g.base, x)]
        src.append(['save', e, rng.choice(('main', 'main', 'side')) if n else 'main'])
        if rng.random() < .25:
            src.append(['git', rng.choice(('git', 'main')), rng.randrange(1 << 30)])
        if rng.random() < .2:
            src.append(['odd', rng.choice(('main', 'odd')), rng.randrange(len(WHO)), rng.randrange(len(ZONES)), rng.randrange(len(MSGS)), rng.randrange(1 << 31)])
    trials = []
    for _ in range(rng.randint(2, 4)):
        modes = rng.choice((['repair'], ['repair'], ['repair'], ['rewrite'], ['rewrite'], ['rewrite', 'repair'], ['rewrite', 'repair', 'copy']))
        t = {'via': rng.choice(('local', 'local', 'local', 'ssh', 'bup', 'on')), 'conf': split_conf(rng), 'dst': [], 'damage': [], 'seed': rng.randrange(1 << 30)}
        for _ in range(rng.choice((0, 0, 1, 1, 2))):
            t['dst'].append(rng.choice((['own', 'd1'], ['own', 'main'], ['got', 'main'], ['got', 'd1'], ['got', 'new'], ['copypacks', rng.random()])))
        t['targets'] = [target(rng, modes, rng.choice((['main', 'd1', 'new'], ['new']))) for _ in range(rng.choice((1, 1, 2, 2, 3, 4)))]
        if rng.random() < .2: # (excludes that come and go)
            t['targets'] = again(rng, t['targets'][0])
        if rng.random() < .75:
            t['damage'] = [damage(rng) for _ in range(rng.choice((1, 1, 2, 3, 6)))]
        if rng.random() < .5:
            t['fault'] = rng.randint(1, 3)
        if rng.random() < .25:
            t['crash'] = rng.choice((.02, .05))
        trials.append(t)
    return {'cfg': cfg, 'conf': split_conf(rng), 'src': src, 'trials': trials}

def sample(p):
    return {'conf': p['conf'], 'src': [o if o[0] != 'save' else ['save', len(o[1]), o[2]] for o in p['src']], 'trials': p['trials'][:2]}

# ---------------------------------------------------------------- decoding

META = {1: 'path', 2: 'c1', 3: 'link', 8: 'hard', 9: 'c2', 10: 'c3'}

def vuint(b, i):
    v = s = 0
    while True:
        c = b[i]
        i += 1
        v |= (c & 127) << s
        s += 7
        if not c & 128:
            return v, i

def vint(b, i):
    c = b[i]
    v, neg, i = c & 63, c & 64, i + 1
    if c & 128:
        x, i = vuint(b, i)
        v |= x << 6
    return (-v if neg else v), i

class Meta:
    """A metadata record; raw without the size."""
    def __init__(self, b):
        self.mode = self.size = self.target = self.mtime = None
        self.fields = []
        i = 0
        while i < len(b):
            t, i = vuint(b, i)
            if t == 0:
                break
            n, i = vuint(b, i)
            v, i = b[i:i + n], i + n
            if t == 10:
                j = 0
                x = []
                for f in 'vvsvsvvVvVvVv':
                    if f == 's':
                        k, j = vuint(v, j)
                        x.append(v[j:j + k])
                        j += k
                    else: # (both are signed or not by their first letter's case in the format)
                        y, j = (vint if f == 'v' else vuint)(v, j)
                        x.append(y)
                self.mode, self.size = x[0], x[-1]
                self.owner = x[1:5]
                self.mtime = x[8] * 10**9 + x[9]
                self.fields.append((t, tuple(x[:-1])))
                continue
            if t == 3:
                self.target = v
            self.fields.append((t, v))

def meta(rec):
    """None if there is nothing in it."""
    return None if rec is None or rec == b'\0' else Meta(rec)

class Dir:
    pass

def listing(r, oid):
    """Entries of a directory with their metadata records; raises Missing."""
    d = Dir()
    ents = r.tree(oid)
    d.split = any(n.endswith(b'.bupd') for _, n, _ in ents)
    d.dot = None
    d.abridged = d.leafbad = False
    d.ents = {}
    d.bupm = None
    def one(ents, leaf):
        recs = None
        for m, n, c in ents:
            if n == b'.bupm':
                recs = bupm_records(r.chunks(c, m))
                if stat.S_ISDIR(m):
                    d.bupm = 'chunked'
        x = []
        for m, n, c in ents:
            if n == b'.bupm':
                continue
            if n.endswith(b'.bupl'):
                x.append((n[:-5], 'dir' if stat.S_ISDIR(m) else 'file', m, c))
            elif n.endswith(b'.bup'):
                x.append((n[:-4], 'file', m, c))
            else:
                x.append((n, 'dir' if stat.S_ISDIR(m) else 'file', m, c))
        x.sort()
        if recs is not None:
            d.had = True
            if not leaf:
                d.dot = recs[0] if recs else None
            want = 1 + sum(1 for e in x if e[1] != 'dir')
            if len(recs) != want:
                if leaf:
                    d.leafbad = True
                d.abridged = True
                recs = None
            else:
                recs = recs[:0:-1]
        for n, k, m, c in x:
            rec = None
            if k != 'dir' and recs is not None:
                rec = recs.pop()
            if n in d.ents:
                raise Bad(f'two entries {n!r}')
            d.ents[n] = (k, m, c, rec)
    d.had = False
    if d.split:
        top = [e for e in ents if e[1] == b'.bupm']
        if top:
            d.had = True
            d.dot = bupm_records(r.chunks(top[0][2], top[0][0]))[0]
        leaves_of(r, ents, one)
    else:
        one(ents, False)
    return d

def leaves_of(r, ents, fn):
    """Call fn for the entries of each leaf of a split tree, whatever its layout."""
    if any(n.endswith(b'.bupd') for _, n, _ in ents):
        for m, n, c in ents:
            if n != b'.bupm' and stat.S_ISDIR(m):
                leaves_of(r, r.tree(c), fn)
    else:
        fn(ents, True)

def excluded(path, rxs):
    return any(re.search(x, path) for x in rxs)

def unsh(b):
    """Undo the quoting of paths."""
    if b.startswith(b"$'"):
        out, i, b = bytearray(), 0, b[2:-1]
        while i < len(b):
            if b[i] != 92:
                out.append(b[i])
                i += 1
            elif b[i + 1:i + 2] == b'x':
                out.append(int(b[i + 2:i + 4], 16))
                i += 4
            elif chr(b[i + 1]).isdigit():
                out.append(int(b[i + 1:i + 4], 8))
                i += 4
            else:
                out.append({'a': 7, 'b': 8, 'e': 27, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}.get(chr(b[i + 1]), b[i + 1]))
                i += 2
        return bytes(out)
    if b.startswith(b"'"):
        return b[1:-1]
    return b

class Account:
    """What a save needs to have repaired."""
    def __init__(self):
        self.replaced = {}      # path -> (kind, source oid)
        self.links = {}         # path -> oid
        self.lost = set()       # paths
        self.unclear = None     # no claim
        self.lenient = False    # (git was disturbed and may not find what is there)
        self.more = 0

    def count(self):
        return len(self.replaced) + len(self.links) + len(self.lost)

def survey(r, commit, rxs):
    """(Account, missing object that --rewrite must notice or None); Missing if nothing can be done."""
    acc = Account()
    bad = []
    def walk(path, oid, d):
        if d.leafbad:
            acc.unclear = 'abridged metadata in a split tree'
        if d.abridged:
            bad.append('abridged metadata of ' + dec(path or b'/'))
        for n, (k, m, c, rec) in d.ents.items():
            p = path + b'/' + n
            if excluded(p + (b'/' if k == 'dir' else b''), rxs):
                continue
            if k == 'dir':
                try:
                    sub = listing(r, c)
                except Missing as ex:
                    bad.append(ex.oid)
                    acc.replaced[p] = ('tree', c)
                    continue
                walk(p, c, sub)
                continue
            if d.abridged:
                acc.lost.add(p)
            x = meta(rec)
            kind = stat.S_IFMT(x.mode) if x is not None and x.mode else stat.S_IFLNK if stat.S_ISLNK(m) else stat.S_IFREG
            if kind == stat.S_IFLNK:
                if c not in r.objs:
                    if x is not None and x.target:
                        acc.links[p] = c
                    else:
                        bad.append(c)
                        acc.replaced[p] = ('symlink', c)
            elif kind == stat.S_IFREG:
                try:
                    r.chunks(c, m)
                except Missing as ex:
                    bad.append(ex.oid)
                    acc.replaced[p] = ('file', c)
    top = r.commit(commit)['tree']
    walk(b'', top, listing(r, top))
    return acc, bad[0] if bad else None

REPLACED = re.compile(rb'This is a replacement for a (file|tree|symbolic link) that was unreadable\nduring a bup repair operation\.\n\nBup-Replacement-Info: (.*)\nReplaced: (file|tree|symlink) ([0-9a-f]{40})\nMissing: ([0-9a-f]{40})\n')

def compare(s, d, soid, doid, rxs, acc, rid, when, rec):
    """The destination tree is the source tree with acc's repairs; {path: oid} of replacements."""
    got = {}
    def bad(cls, path, msg):
        raise Violation(cls, f'{dec(path or b"/")}: {msg}')
    def replaced(p, ent, want, sx):
        k, m, c, drec = ent
        kind, oid = want
        if k != 'file' or stat.S_ISDIR(m) or not stat.S_ISREG(m):
            bad('replacement', p, f'should be replaced by a file, is {k} {m:o}')
        b = d.chunks(c, m)
        x = REPLACED.fullmatch(b)
        if not x:
            bad('replacement', p, f'unexpected content {b[:100]!r}')
        if rid is not None and x.group(2) != rid:
            bad('replacement', p, f'repair id {x.group(2)!r} instead of {rid!r}')
        if x.group(1).decode() != {'symlink': 'symbolic link'}.get(kind, kind) or x.group(3).decode() != kind or x.group(4).decode() != oid.hex():
            bad('replacement', p, f'does not tell what it replaces ({kind} {oid.hex()}): {b!r}')
        mo = bytes.fromhex(x.group(5).decode())
        if mo in s.objs:
            bad('replacement', p, f'{mo.hex()} is not missing')
        dm = meta(drec)
        if dm is None or not stat.S_ISREG(dm.mode) or dm.size != len(b):
            bad('replacement', p, f'metadata {vars(dm) if dm else None}')
        if not when[0] - 10**9 <= dm.mtime <= when[1] + 10**9:
            bad('replacement', p, f'modification time {dm.mtime} is not the time of the repair {when}')
        if sx is not None and dm.owner != sx.owner:
            bad('replacement', p, f'owner {dm.owner} instead of {sx.owner}')
        got[p] = c
        rec.probe('replaced-' + kind)
    def walk(path, so, do):
        sd, dd = listing(s, so), listing(d, do)
        if dd.abridged:
            bad('metadata', path, 'wrong number of metadata entries in the destination')
        for x, n in ((sd, ''), (dd, 'un')):
            if x.split:
                rec.probe('split-tree')
        if sd.split and not dd.split:
            rec.probe('unsplit')
        if dd.bupm:
            rec.probe('chunked-bupm')
        if (sd.dot or b'\0') != (dd.dot or b'\0'):
            bad('metadata', path, f'directory metadata {dd.dot!r} instead of {sd.dot!r}')
        want = {}
        for n, e in sd.ents.items():
            if excluded(path + b'/' + n + (b'/' if e[0] == 'dir' else b''), rxs):
                rec.probe('excluded')
                continue
            want[n] = e
        if set(want) != set(dd.ents):
            bad('paths', path, f'missing {sorted(set(want) - set(dd.ents))[:4]}, unexpected {sorted(set(dd.ents) - set(want))[:4]}')
        for n, (k, m, c, srec) in want.items():
            p = path + b'/' + n
            e = dk, dm, dc, drec = dd.ents[n]
            sx = meta(srec)
            if p in acc.replaced:
                replaced(p, e, acc.replaced[p], sx)
                continue
            if acc.lenient and dk == 'file' and not stat.S_ISDIR(dm) and REPLACED.fullmatch(d.get(dc)) and c.hex().encode() in d.get(dc):
                acc.more += 1
                continue
            if dk != k:
                bad('kind', p, f'{dk} instead of {k}')
            if k == 'dir':
                walk(p, c, dc)
                continue
            if sd.abridged:
                if drec not in (None, b'\0'):
                    bad('metadata', p, f'ambiguous metadata became {drec!r}')
            elif (srec or b'\0') != (drec or b'\0'):
                dx = meta(drec)
                if not (sx is not None and dx is not None and sx.fields == dx.fields and (sx.size is None or sx.size < 0)):
                    bad('metadata', p, f'metadata {drec!r} instead of {srec!r}')
            kind = stat.S_IFMT(sx.mode) if sx is not None and sx.mode else stat.S_IFLNK if stat.S_ISLNK(m) else stat.S_IFREG
            if kind == stat.S_IFLNK:
                if not stat.S_ISLNK(dm):
                    bad('kind', p, f'{dm:o} instead of a symbolic link')
                t = sx.target if sx is not None and sx.target else s.get(c)
                if d.get(dc) != t:
                    bad('content', p, f'link to {d.get(dc)!r} instead of {t!r}')
            elif kind == stat.S_IFREG:
                if d.chunks(dc, dm) != s.chunks(c, m):
                    bad('content', p, 'other content')
                if stat.S_ISDIR(dm):
                    rec.probe('chunked')
                elif stat.S_ISLNK(dm) or not stat.S_ISDIR(m) and (dm ^ m) & 0o111:
                    bad('kind', p, f'{dm:o} instead of {m:o}')
            else:
                rec.probe('special')
                if d.chunks(dc, dm) != b'':
                    bad('content', p, 'content for a special file')
    walk(b'', soid, doid)
    return got

def trailers(msg):
    res = {}
    for l in msg.split(b'\n'):
        k, sep, v = l.partition(b': ')
        if sep and k.startswith(b'Bup-'):
            res.setdefault(k[4:].decode('latin-1'), []).append(v)
    return res

def check_commit(s, d, sc, dc, parent, what, rxs, rid, rec, when, mode, names, first):
    """The commit dc of the destination is the rewritten or copied commit sc of the source; its Account."""
    a, b = s.commit(sc), d.commit(dc)
    if b['parents'] != ([parent] if parent else []):
        raise Violation('history', f'{what}: parents {[x.hex() for x in b["parents"]]}')
    if a['author'] != b['author']:
        raise Violation('commit', f'{what}: author {b["author"]!r} instead of {a["author"]!r}')
    if mode == 'copy':
        if a['tree'] != b['tree'] or a['msg'] != b['msg']:
            raise Violation('commit', f'{what}: not a copy')
        return Account()
    acc, _ = survey(s, sc, rxs)
    acc.lenient = rec.lenient and mode == 'repair'
    tr = trailers(b['msg'][len(a['msg'].rstrip()):])
    if not b['msg'].startswith(a['msg'].rstrip()):
        raise Violation('commit', f'{what}: message {b["msg"]!r} instead of {a["msg"]!r}')
    if rid is None and acc.count():
        x = tr.get('Repair-ID', [b'?'])[0]
        rid = x
    got = compare(s, d, a['tree'], b['tree'], rxs, acc, rid, when, rec)
    if acc.more:
        rec.more += acc.more
        return acc
    if not first: # (restored along with a directory that was not looked at again)
        said = {(x[:41] + unsh(x[41:])).strip(b'/') for x in tr.get('Restored-Link-Blob', [])}
        acc.links = {p: c for p, c in acc.links.items() if c.hex().encode() + b' ' + p.strip(b'/') in {slash(x, '') for x in said}}
    want = {'Repair-ID': {rid} if acc.count() else set(),
            'Repaired-Save': {sc.hex().encode() + b' ' + n for n in names} if acc.count() else set(),
            'Replaced': {c.hex().encode() + b' ' + p for p, c in got.items()},
            'Restored-Link-Blob': {c.hex().encode() + b' ' + p for p, c in acc.links.items()},
            'Lost-Meta': set(acc.lost)}
    for k, w in want.items():
        have = tr.get(k, [])
        if k in ('Repaired-Save', 'Replaced', 'Restored-Link-Blob'):
            have = [x[:41] + unsh(x[41:]) for x in have]
        elif k == 'Lost-Meta':
            have = [unsh(x) for x in have]
        if k == 'Repaired-Save':
            ok = not w and not have or len(have) == 1 and have[0] in w
        else:
            norm = {x if k not in ('Replaced', 'Restored-Link-Blob', 'Lost-Meta') else slash(x, k) for x in have}
            ok = norm == {slash(x, k) if k not in ('Repair-ID',) else x for x in w} and len(have) == len(w)
        if not ok:
            raise Violation('account', f'{what}: {k} is {have[:4]}, {sorted(w)[:4]} expected')
    if acc.links:
        rec.probe('link-blob-restored')
    if acc.lost:
        rec.probe('meta-lost')
    return acc

def slash(x, k):
    """(whether paths begin or end with a slash does not matter)"""
    if k == 'Lost-Meta':
        return x.strip(b'/')
    return x[:41] + x[41:].strip(b'/')

# ---------------------------------------------------------------- setting up

def git_commit(rng, fs, r, branch):
    """A commit as git would make it."""
    new, trees = [], []
    def add(t, c):
        new.append((t, c))
        return programs.oid_of(t, c)
    def tree(depth):
        ents = {}
        for _ in range(rng.randint(1, 4)):
            n = rng.choice((b'a', b'b', b'exe', b'l', b'x y', b'z.c', b'\xc3\xa9', b'README'))
            x = rng.random()
            if x < .15 and trees:
                ents[n] = (0o40000, rng.choice(trees))
            elif x < .3 and depth < 3:
                ents[n] = (0o40000, tree(depth + 1))
                trees.append(ents[n][1])
            elif x < .4:
                ents[n] = (0o120000, add(b'blob', rng.choice((b'a', b'../b', b'x y', b'/etc'))))
            else:
                ents[n] = (rng.choice((0o100644, 0o100644, 0o100755)), add(b'blob', bytes(rng.randrange(256) for _ in range(rng.choice((0, 5, 300, 20000))))))
        return add(b'tree', encode_tree([(m, n, c) for n, (m, c) in sorted(ents.items(), key=lambda e: e[0] + (b'/' if e[1][0] == 0o40000 else b''))]))
    t = tree(0)
    cur = r.refs().get(b'refs/heads/' + branch)
    c = b'tree %s\n' % t.hex().encode() + (b'parent %s\n' % cur.hex().encode() if cur else b'') + b'author a <b@c> %d +0100\ncommitter a <b@c> 1700000000 +0000\n\nby git\n' % rng.randrange(1 << 30)
    o = add(b'commit', c)
    uniq = {programs.oid_of(*x): x for x in new}
    lab.add_objects(fs, S, [x for k, x in uniq.items() if k not in r.objs])
    lab.set_ref(fs, S, b'refs/heads/' + branch, o)

def build(plan, rec):
    l = Lab(dict(plan['cfg'], frag='none', preempt=0, trace=plan.get('trace')))
    l.add_config(l.host, S, plan['conf'])
    w, fs = l.w, l.host.fs
    for op in plan['src']:
        if op[0] == 'save':
            for e in op[1]:
                gen.apply_edit(fs, SRC, e)
                w.now += 1_000_000
            for a in (('index', '/src'), ('save', '-n', op[2], '/src')):
                x = lab.bup(w, l.host, *a)
                if x.rc:
                    raise SetupFailed(['bup', list(a)], x)
        else:
            r = Repo(fs)
            main = r.refs().get(b'refs/heads/main')
            if main is None:
                continue
            if op[0] == 'git':
                git_commit(subrng(op[2], 'git'), fs, r, enc(op[1]))
            else:
                ref = b'refs/heads/' + enc(op[1])
                cur = r.refs().get(ref)
                c = b'tree ' + r.commit(main)['tree'].hex().encode() + b'\n' + (b'parent ' + cur.hex().encode() + b'\n' if cur else b'')
                c += b'author %s %d %s\ncommitter %s %d %s\n' % (WHO[op[2] % len(WHO)], op[5], ZONES[op[3] % len(ZONES)], b'C <c@d>', op[5] // 2, b'+0000') + b'\n' + MSGS[op[4] % len(MSGS)]
                [o] = lab.add_objects(fs, S, [(b'commit', c)])
                lab.set_ref(fs, S, ref, o)
        w.now += 3 * SEC
    if w.harness_errors:
        raise HarnessError(str(w.harness_errors[0]))
    r = Repo(fs)
    must_complete(r, 'at the start')
    now = w.epoch + w.now
    rec.world(w)
    l.close()
    return fs, now

class T:
    """One destination and its history."""
    def __init__(self, plan, t, fs0, now, rec):
        cfg = self.cfg = dict(plan['cfg'], epoch=now + 10 * SEC, seed=t['seed'], trace=plan.get('trace'))
        if t['via'] == 'local':
            cfg['frag'] = 'none'
        l = self.l = Lab(cfg, fs=fs0.clone())
        self.via = t['via']
        if self.via == 'on': # (bup get runs on srv, and writes here)
            l.use_fs('srv', fs0.clone())
            f = FS()
            lab.base_fs(f)
            l.use_fs('host', f)
            lab.ok(lab.bup(l.w, l.host, 'init'), 'init')
        elif self.via != 'local':
            lab.ok(lab.bup(l.w, l.srv, 'init'), 'init')
        self.sname, self.dname = {'local': ('host', 'host'), 'on': ('srv', 'host')}.get(self.via, ('host', 'srv'))
        self.dpath = b'/d' if self.via == 'local' else b'/r'
        dh = l.w.hosts[self.dname]
        if self.via == 'local':
            lab.ok(lab.bup(l.w, dh, '-d', '/d', 'init'), 'init')
        l.add_config(dh, self.dpath, t['conf'])
        self.daemon(l)

    def daemon(self, l):
        if self.via == 'bup':
            Remote({'mode': 'bup'}, l)

    def src(self, l=None):
        return frozen((l or self.l).w.hosts[self.sname].fs, S)

    def dst(self, l=None):
        return frozen((l or self.l).w.hosts[self.dname].fs, self.dpath)

    def start(self, l, args):
        G.world = l.w
        args = [by(a) for a in args]
        if self.via == 'on':
            return lab.start(l.w, l.host, [b'bup', b'on', b'srv', b'get', b'-s', S, *args])
        pre = [b'bup', b'-d', b'/d', b'get'] if self.via == 'local' else [b'bup', b'get', b'-r', b'srv:/r' if self.via == 'ssh' else b'bup://srv/r']
        return lab.start(l.w, l.host, [*pre, b'-s', S, *args])

    def get(self, l, args, what):
        p = self.start(l, args)
        return self.finish(l, p, what)

    def finish(self, l, p, what):
        try:
            l.w.run(p)
            if self.via != 'bup':
                lab.settle(l.w)
        except SimHang as ex:
            raise Violation('hang', f'{what}: {ex}')
        if l.w.harness_errors:
            raise HarnessError(str(l.w.harness_errors[0]))
        return lab.result(p)

    def clone(self, seed):
        l = Lab(dict(self.cfg, epoch=self.l.w.epoch + self.l.w.now + SEC, seed=seed), fs=self.fss['host'].clone())
        l.use_fs('srv', self.fss['srv'].clone())
        self.daemon(l)
        return l

    def freeze(self):
        for h in self.l.w.hosts.values():
            h.fs.sync_all()
        self.fss = {n: h.fs.clone() for n, h in self.l.w.hosts.items()}

def by(a):
    return a if isinstance(a, bytes) else enc(a)

class Target:
    """Where a target comes from and goes to."""
    def __init__(self, t, r):
        refs = r.refs()
        self.t = t
        brs = sorted(n[11:] for n in refs if n.startswith(b'refs/heads/') and not n.startswith(b'refs/heads/bad'))
        bad = sorted(n[11:] for n in refs if n.startswith(b'refs/heads/bad'))
        if bad and t['src'][1] > .4:
            brs = bad
        self.branch = brs[int(t['src'][1] * len(brs))]
        tip = refs[b'refs/heads/' + self.branch]
        self.commits, self.lost = None, False
        self.args, self.names = None, {}
        self.rxs = []
        try:
            h = r.history(tip)
            names = lab.save_names(r, h)
        except Missing:
            self.lost = True
            self.name = dec(self.branch)
            return
        self.all = {o: self.branch + b'/' + n for o, n in zip(h, names)}
        k = t['src'][0]
        if k == 'branch':
            self.commits = h[::-1]
            self.name = dec(self.branch)
        elif k == 'latest':
            self.commits = h[:1]
            self.name = dec(self.branch) + '/latest'
        else:
            n = int(t['src'][2] * len(h))
            self.commits = [h[n]]
            self.name = dec(self.branch) + '/' + dec(names[n])
        paths = []
        def walk(p, o, depth):
            try:
                d = r.dir(o)
            except Missing:
                return
            for n, (kind, m, c) in sorted(d.items()):
                paths.append((p + b'/' + n, kind))
                if kind == 'dir':
                    walk(p + b'/' + n, c, depth + 1)
        if t['ex']:
            try:
                walk(b'', r.commit(self.commits[0])['tree'], 0)
            except Missing:
                pass
        for how, a, b in t['ex']:
            c = [p for p, kind in paths if (kind == 'dir') == (how in ('dir', 'below')) and b'\n' not in p and b'\0' not in p]
            if not c or t['mode'] == 'copy':
                continue
            p = c[int(a * len(c))]
            self.rxs.append({'file': b'^' + re.escape(p) + b'$', 'dir': b'^' + re.escape(p) + b'/$', 'below': b'^' + re.escape(p) + b'/.',
                             'name': re.escape(p.rsplit(b'/', 1)[1]) + b'$'}[how])
        self.ref = b'refs/tags/' + enc(t['dest'][5:]) if t['dest'].startswith('.tag/') else b'refs/heads/' + enc(t['dest'])

    def argv(self):
        a = ['--' + self.t['mode'], '--no-excludes']
        if self.t['id'] is not None:
            a += ['--repair-id', self.t['id']]
        for x in self.rxs:
            a += ['--exclude-rx', x]
        return [*a, '--' + self.t['m'] + ':', self.name, self.t['dest']]

class Expect:
    """What the destination must be afterwards."""
    def __init__(self, s, d, targets):
        self.must_fail = self.may_fail = None
        self.repairs = 0
        self.chains = {}        # ref -> [(source commit, Target)] on top of self.base[ref]
        self.base = {}
        refs = d.refs()
        self.old = refs
        self.rid = None
        self.first = None
        self.copies = any(t.t['mode'] == 'copy' for t in targets)
        for t in targets:
            if t.lost:
                self.must_fail = 'lost history'
                return
            mode = t.t['mode']
            if t.t['id'] is not None:
                self.rid = t.t['id'].encode()
            t.rid = self.rid
            tag = t.ref.startswith(b'refs/tags/')
            if t.ref not in self.base:
                self.base[t.ref] = refs.get(t.ref)
                self.chains[t.ref] = []
                if tag and refs.get(t.ref) is not None and t.t['m'] == 'pick':
                    self.must_fail = 'existing tag'
                    return
            elif tag and t.t['m'] == 'pick':
                self.may_fail = 'tag twice'
            for c in t.commits:
                try:
                    if mode == 'copy':
                        for x in (s.commit(c)['tree'],):
                            if s.closure(x)[1]:
                                # (unless the destination has them, perhaps due to what precedes)
                                self.may_fail = f'copy of incomplete {c.hex()}'
                        self.chains[t.ref].append((c, t))
                        continue
                    acc, bad = survey(s, c, t.rxs)
                    if acc.unclear:
                        self.may_fail = acc.unclear
                    if mode == 'rewrite' and bad:
                        self.must_fail = f'rewrite with {bad if isinstance(bad, str) else bad.hex()} missing or abridged'
                        return
                    self.repairs += acc.count()
                    self.first = self.first or (c, t)
                    self.chains[t.ref].append((c, t))
                except Missing as ex:
                    self.must_fail = f'{ex.oid.hex()} is missing'
                    return

    def check(self, s, d, what, rec, when, all_refs=True):
        refs = d.refs()
        for n in sorted(set(refs) | set(self.old) | set(self.chains)):
            if n not in self.chains:
                if refs.get(n) != self.old.get(n):
                    raise Violation('ref', f'{what}: {dec(n)} changed')
                continue
            if refs.get(n) == self.base[n] and not all_refs:
                continue
            self.chain(s, d, n, refs.get(n), what, rec, when)

    def chain(self, s, d, ref, tip, what, rec, when):
        want = self.chains[ref]
        if tip is None:
            raise Violation('ref', f'{what}: {dec(ref)} does not exist')
        h = d.history(tip)[::-1]
        base = d.history(self.base[ref])[::-1] if self.base[ref] is not None else []
        if h[:len(base)] != base or len(h) != len(base) + len(want):
            raise Violation('history', f'{what}: {dec(ref)} has {len(h)} commits instead of {len(base)} + {len(want)}')
        prev = base[-1] if base else None
        for (c, t), o in zip(want, h[len(base):]):
            check_commit(s, d, c, o, prev, f'{what}: {dec(ref)} {t.t["mode"]} of {dec(t.all[c])}', t.rxs, t.rid, rec, when, t.t['mode'], [t.all[c]], (c, t) == self.first)
            prev = o

def execute(plan, rec):
    rec.lenient, rec.more = False, 0
    fs, now = build(plan, rec)
    if b'refs/heads/main' not in Repo(fs).refs():
        return
    for n, t in enumerate(plan['trials']):
        if plan.get('only') not in (None, n) or not t['targets']:
            continue
        try:
            trial(plan, rec, fs, now, t)
        except Violation as ex:
            ex.pin = dict(getattr(ex, 'pin', None) or {}, only=n)
            raise

def trial(plan, rec, fs0, now, t):
    st = T(plan, t, fs0, now, rec)
    l = st.l
    rec.probe(t['via'])
    sfs = l.w.hosts[st.sname].fs
    dh = l.w.hosts[st.dname]
    rng = subrng(t['seed'], 'dst')
    for op in t['dst']:
        if op[0] == 'own':
            dh.fs.mkdirs(b'/own')
            dh.fs.put(b'/own/f', gen.content(gen.rand_spec(rng, .3, 20000)))
            for a in (('index', '-f', '/tmp/oi', '/own'), ('save', '-f', '/tmp/oi', '-n', op[1], '/own')):
                lab.ok(lab.bup(l.w, dh, b'-d', st.dpath, *a))
        elif op[0] == 'got':
            r = st.get(l, ['--rewrite', '--append:', 'main', op[1]], 'get')
            if r.rc:
                raise Violation('refused', f'get --rewrite --append: main {op[1]} of an intact repository: exit {r.rc} [{r.err[-700:].decode("utf-8", "replace")}]')
        else:
            for s in sorted(Repo(sfs, S).packs):
                if rng.random() < op[1]:
                    for x in (b'.pack', b'.idx'):
                        dh.fs.put(st.dpath + b'/objects/pack/' + s + x, bytes(sfs.lookup(S + b'/objects/pack/' + s + x).data))
        l.w.now += 2 * SEC
    # (packs copied in may lack what they refer to; bup believes what it has, so complete them)
    d = st.dst()
    if dangling(d):
        have = set(d.objs)
        r = Repo(sfs, S)
        lab.add_objects(dh.fs, st.dpath, [r.objs[o] for o in sorted(r.objs) if o not in have])
        e = dh.fs.lookup(st.dpath + b'/objects/pack')
        if b'bup.bloom' in e.entries:
            dh.fs.unlink(e, b'bup.bloom', e.entries[b'bup.bloom'])
    dmg = []
    for x in t['damage']:
        if x[0] == 'missing' and x[1] == 'link':
            x = link_damage(sfs, x) or x
        if x is not None and x[1] != 'link':
            dmg.append(x)
    texts = prepare(sfs, {'damage': dmg}, rec)
    s, d = st.src(), st.dst()
    targets = [Target(x, s) for x in t['targets']]
    if 'git' in [dec(x.branch) for x in targets] or any(o[0] == 'git' for o in plan['src']):
        rec.probe('git-made')
    if any(o[0] == 'odd' for o in plan['src']):
        rec.probe('odd')
    exp = Expect(s, d, targets)
    args = []
    for x in targets:
        args += x.argv() if not x.lost else ['--' + x.t['mode'], '--append:', x.name, 'new']
        rec.probe(x.t['mode'])
        rec.probe(x.t['src'][0])
        if x.t['dest'].startswith('.tag/'):
            rec.probe('tag')
        if not x.lost and x.ref in exp.old:
            rec.probe('to-existing')
    if len(targets) > 1:
        rec.probe('multi')
    st.freeze()
    what = f'bup get {" ".join(dec(by(a)) for a in args)} via {t["via"]} after {"; ".join(texts) or "no loss"}'
    rec.trials += 1
    calls, links = {}, []
    def count(p, call, path, info):
        if path is not None and (path.startswith(b'/r') or path.startswith(b'/d')) or call in ('read', 'write', 'fsync', 'spawn'):
            k = (p.name().split()[0] if p.prog != b'git' else p.name(), p.host.name, call)
            calls[k] = calls.get(k, 0) + 1
    l.w.observers.append(count)
    t0 = l.w.epoch + l.w.now
    r = st.get(l, args, what)
    l.w.observers.clear()
    when = (t0, l.w.epoch + l.w.now)
    after = st.dst()
    judge(rec, what, r, s, after, d, exp, when)
    rec.state(t['via'], sorted({x.t['mode'] for x in targets}), [x.split(' ')[0:3:2] for x in texts], r.rc, min(exp.repairs, 4))
    if r.rc in (0, 3):
        more(plan, rec, st, s, d, exp, targets, what, r)
    try:
        disturb(plan, rec, st, t, args, what, s, d, exp, calls, r)
    finally:
        G.world = l.w
    rec.world(l.w)
    l.close()

def link_damage(fs, x):
    """A symbolic link's blob that nothing else uses."""
    r = Repo(fs)
    links = set()
    for o, (ty, c) in r.objs.items():
        if ty == b'tree':
            for m, n, b in r.tree(o):
                if stat.S_ISLNK(m) and b in r.objs:
                    links.add(b)
    if not links:
        return None
    objs = sorted(o for o in r.objs)
    c = sorted(links)
    o = c[int(x[3] * len(c))]
    return ['missing', 'any', 'needed', (objs.index(o) + .5) / len(objs), x[4]]

def judge(rec, what, r, s, after, d, exp, when):
    e = f' (exit {r.rc}) [{r.err[-900:].decode("utf-8", "replace")}]'
    try:
        must_complete(after, 'the destination')
        x = dangling(after)
        if x:
            raise Violation('dangling', x)
        if r.rc not in (0, 3):
            if after.refs() != d.refs():
                raise Violation('published', 'fails, but changed refs')
            if not exp.must_fail and not exp.may_fail:
                raise Violation('refused', 'fails, although it could complete')
            if b'AssertionError' in r.err or b'TypeError' in r.err or b'AttributeError' in r.err:
                raise Violation('crash', 'fails with an internal error')
            rec.probe('refused')
            return
        if exp.must_fail:
            raise Violation('false-success', f'succeeds in spite of {exp.must_fail}')
        if exp.may_fail == 'tag twice':
            return
        exp.check(s, after, 'result', rec, when)
        if r.rc != (3 if exp.repairs or rec.more else 0):
            raise Violation('status', f'{exp.repairs} repairs')
        w = Walk(after, after.refs().values())
        if (w.less or w.more) and not exp.copies:
            raise Violation('metadata', 'metadata of the destination with a wrong number of entries')
        rec.probe('repaired' if exp.repairs else 'intact')
    except Violation as ex:
        ex.msg = f'{what}: {ex.msg}{e}'
        raise

def more(plan, rec, st, s, d, exp, targets, what, r):
    """The result can be restored; rewriting back gives the original."""
    rng = subrng(st.cfg['seed'], 'more')
    l = st.l
    G.world = l.w
    dh = l.w.hosts[st.dname]
    after = st.dst()
    refs = [n for n in exp.chains if n.startswith(b'refs/heads/')]
    if refs and not exp.copies and rng.random() < .4:
        n = rng.choice(sorted(refs))
        x = lab.bup(l.w, dh, b'-d', st.dpath, 'restore', '-C', '/out', b'/' + n[11:] + b'/latest/.')
        # (restoring as root sets what the metadata says; a lost link or device is what it became)
        if x.rc:
            raise Violation('restore', f'{what}: the result cannot be restored: {x.err[-500:]!r}')
        c, t = exp.chains[n][-1]
        tip = after.refs()[n]
        want = after.content(after.commit(tip)['tree'])
        for p, (kind, b) in want.items():
            if kind == 'file' and b:
                f = dh.fs.lookup(b'/out/' + p)
                if f is None or bytes(f.data) != b:
                    raise Violation('restore', f'{what}: {dec(p)} is restored with other content')
        rec.probe('restored')
    if st.via == 'local' and not exp.repairs and rng.random() < .5 and refs:
        n = rng.choice(sorted(refs))
        c, t = exp.chains[n][-1]
        if t.rxs or t.t['mode'] != 'rewrite' or not s.commit(c)['msg'].startswith(b'bup save'):
            return
        lab.ok(lab.bup(l.w, l.host, '-d', '/back', 'init'))
        l.add_config(l.host, b'/back', plan['conf'])
        x = lab.bup(l.w, l.host, '-d', '/back', 'get', '-s', '/d', '--rewrite', '--pick:', dec(n[11:]) + '/latest', 'x')
        if x.rc:
            raise Violation('roundtrip', f'{what}: rewriting the result fails: {x.err[-500:]!r}')
        b = Repo(l.host.fs, b'/back')
        o, q = b.commit(b.refs()[b'refs/heads/x'])['tree'], s.commit(c)['tree']
        if o != q:
            raise Violation('roundtrip', f'{what}: rewriting it back gives the tree {o.hex()} instead of {q.hex()}')
        rec.probe('roundtrip')

def disturb(plan, rec, st, t, args, what, s, d, exp, calls, calm):
    rng = subrng(t['seed'], 'disturb')
    trials = []
    keys = sorted(calls)
    for _ in range(t.get('fault') or 0):
        if not keys:
            break
        k = rng.choice(keys)
        spec = {'prog': k[0], 'host': k[1], 'calls': [k[2]], 'nth': rng.randrange(calls[k]), 'persist': rng.random() < .15}
        x = rng.random()
        if k[2] in ('read', 'write') and x < .2:
            spec['action'] = 'short'
        elif x < .4:
            spec['action'] = 'kill'
        elif x < .5 and k[0] == 'bup':
            spec['action'] = 'int'
        else:
            spec['action'], spec['errno'] = 'err', rng.choice(ERR)
        trials.append(('fault', spec))
    if t.get('crash'):
        trials.append(('crash', t['crash']))
    pin = plan.get('fault')
    if pin is not None:
        trials = [pin]
    for kind, spec in trials:
        l = st.clone(rng.randrange(1 << 30))
        rec.trials += 1
        rec.lenient, rec.more = False, 0
        dh = l.w.hosts[st.dname]
        w2 = f'{what}, {kind} {spec}'
        try:
            cr = f = None
            t0 = l.w.epoch + l.w.now
            if kind == 'fault':
                f = Fault(spec)
                l.w.faults.append(f)
            else:
                def image(img, where):
                    rec.probe('image')
                    r2 = frozen(img, st.dpath)
                    must_complete(r2, where)
                    exp_half(exp, s, r2, where, rec, t0)
                cr = Crashes(l, dh, sampler(t['seed'], spec), image, rec=rec)
                l.w.observers.append(cr)
            p = st.start(l, args)
            r = st.finish(l, p, w2)
            l.w.faults.clear()
            l.w.observers.clear()
            when = (t0, l.w.epoch + l.w.now)
            if cr:
                cr.check()
            if f is not None and f.fired:
                rec.probe('fault')
                rec.fault(spec['action'] + ('-' + spec.get('errno', '') if spec.get('errno') else ''))
                w2 += f' at {f.where}'
            after = st.dst(l)
            must_complete(after, w2)
            if r.rc in (0, 3):
                rec.probe('survived')
                rec.lenient = kind == 'fault' and f.fired and spec['prog'].startswith('git') and spec['host'] == st.sname
                judge(rec, w2, r, s, after, d, exp, when)
            else:
                rec.probe('failed')
                rec.lenient = False
                exp_half(exp, s, after, w2, rec, when[0])
                if after.refs() == d.refs() and not (st.via == 'bup'):
                    rec.probe('rerun')
                    t0 = l.w.epoch + l.w.now
                    r = st.get(l, args, w2 + ', repeated')
                    judge(rec, w2 + ', repeated', r, s, st.dst(l), d, exp, (t0, l.w.epoch + l.w.now))
        except Violation as ex:
            ex.pin = dict(getattr(ex, 'pin', None) or {}, fault=[kind, spec])
            raise
        rec.world(l.w)
        l.close()

def exp_half(exp, s, after, what, rec, t0):
    """Each ref has its old or its new value."""
    if exp.may_fail == 'tag twice':
        return
    if exp.must_fail:
        if after.refs() != exp.old:
            raise Violation('published', f'{what}: changed refs in spite of {exp.must_fail}')
        return
    exp.check(s, after, what, rec, (t0, t0 + 10**13), all_refs=False)
