"""rm and prune-older remove exactly the saves they should."""

from .common import *
from sim.simlibs import in_zone

ID = 'P09'
RULE = ('A plan is a set of branches with generated histories (dates regular, clustered around day, month, year and daylight saving '
        'boundaries, repeated, going backwards after clock changes, in various time zones) and a rm or prune-older request (any keep '
        'periods, --wrt, branch selection). The saves left are compared with an independent statement of the request or policy, commit '
        'by commit (tree, dates, author, message, order); other refs must not move. Crash images and faults are taken on the '
        'way: each branch must hold its old or its new history. Distinct non-trivial: different (history, request) results that remove something.')
ASSUMPTIONS = ['git update-ref is atomic']
SHRINK = ['branches.*', 'rm', 'keep', 'tags']
PROBES = ['rm-save', 'rm-branch', 'prune', 'refused', 'dst', 'backwards', 'duplicates', 'removed', 'kept-some', 'all-removed', 'fault', 'image',
          'pretend', 'future', 'year-apart']

ZONES = ['UTC', 'UTC', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', '<+0545>-5:45']
DAY = 86400
NOW = 1_800_000_000
UNITS = {'s': 1, 'min': 60, 'h': 3600, 'd': DAY, 'w': 7 * DAY, 'm': 31 * DAY, 'y': 366 * DAY}

def dates(rng, n):
    """n dates, oldest first."""
    kind = rng.choice(('regular', 'burst', 'boundary', 'dst', 'yearly', 'sparse', 'mixed', 'same'))
    out = []
    t = NOW - rng.choice((DAY, 40 * DAY, 400 * DAY, 2000 * DAY))
    for i in range(n):
        if kind == 'regular':
            t += rng.choice((3600, DAY, DAY // 2, 7 * DAY))
        elif kind == 'burst':
            t += rng.choice((0, 1, 1, 60, 3600, 3 * DAY))
        elif kind == 'boundary':
            t = t - t % DAY + rng.choice((DAY - 1, DAY, DAY + 1, DAY - 3600, DAY + 3600, 31 * DAY, 31 * DAY - 1))
        elif kind == 'dst':
            t = rng.choice((1792890000, 1792886400, 1793512800)) + i * rng.choice((600, 1800, 3600)) if i == 0 else t + rng.choice((600, 1800, 3600))
        elif kind == 'yearly':
            t += rng.choice((365 * DAY, 366 * DAY, 365 * DAY, 364 * DAY, 30 * DAY))
        elif kind == 'sparse':
            t += rng.randrange(1, 400) * DAY
        elif kind == 'same':
            t += rng.choice((0, 0, 0, DAY))
        else:
            t += rng.choice((0, 1, 3600, DAY, 31 * DAY, 365 * DAY))
        out.append(t)
    shift = max(0, max(out) - NOW - rng.choice((0, 0, 0, 5 * DAY)))
    out = [x - shift for x in out]
    if rng.random() < .15: # the clock went backwards at some point
        k = rng.randrange(len(out))
        d = rng.choice((1, 3600, 2 * DAY, 200 * DAY))
        out = out[:k] + [x - d for x in out[k:]]
    elif rng.random() < .05:
        rng.shuffle(out)
    return [max(x, 1) for x in out]

def plan(rng, tier, i):
    br = {}
    for b in ['main', 'a', 'b c', 'x-1', 'main2'][:rng.randint(1, 4)]:
        br[b] = [[t, rng.choice((0, 0, 60, -330, 720)) if rng.random() < .3 else 0, rng.randrange(6),
                  0 if rng.random() < .9 else rng.randrange(10**6)] for t in dates(rng, rng.choice((1, 2, 3, 5, 8, 14, 25)))]
    p = {'cfg': base_cfg(rng), 'branches': br, 'zone': rng.choice(ZONES), 'tags': [], 'share': rng.random() < .2,
         'midx': rng.random() < .3, 'tseed': rng.randrange(1 << 30)}
    for k in range(rng.choice((0, 0, 1, 2))):
        b = rng.choice(sorted(br))
        p['tags'].append(['t%d' % k, b, rng.randrange(len(br[b]))])
    if i % 2:
        p['kind'] = 'rm'
        p['rm'] = []
        b = None
        for _ in range(rng.choice((1, 1, 2, 3, 6))):
            b = rng.choice(sorted(br))
            x = rng.random()
            if x < .15:
                p['rm'].append([b, None])
            elif x < .9:
                p['rm'].append([b, rng.randrange(len(br[b]))])
            elif x < .95:
                p['rm'].append([b, 'latest'])
            else:
                p['rm'].append([rng.choice(('nope', b)), 'bad'])
        if rng.random() < .1:
            b = rng.choice(sorted(br))
            p['rm'] += [[b, k] for k in range(len(br[b]))]
    else:
        p['kind'] = 'prune'
        p['keep'] = []
        for _ in range(rng.choice((1, 1, 2, 2, 3, 4))):
            u = rng.choice(sorted(UNITS) + ['forever'])
            p['keep'].append([rng.choice(('all', 'dailies', 'monthlies', 'yearlies')),
                              u if u == 'forever' else '%d%s' % (rng.choice((1, 2, 3, 5, 10, 30, 100, 400)), u)])
        p['wrt'] = rng.choice((None, None, NOW, NOW - rng.randrange(400 * DAY)))
        p['only'] = rng.sample(sorted(br), rng.randint(1, len(br))) if rng.random() < .4 else []
        p['gc'] = rng.random() < .3
    p['mode'] = rng.choice(('plain', 'plain', 'crash', 'fault'))
    return p

def sample(p):
    return {k: p[k] for k in ('branches', 'zone', 'kind', 'rm', 'keep', 'wrt') if k in p}

# ---- the policy

def period(s):
    if s == 'forever':
        return float('inf')
    for u in sorted(UNITS, key=len, reverse=True):
        if s.endswith(u) and s[:-len(u)].isdigit():
            return int(s[:-len(u)]) * UNITS[u]

def policy(plan, times, now, zone):
    """Which of the saves (newest first) are kept."""
    import time
    start = {}
    for k, p in plan['keep']:
        start[k] = now - period(p) # the last one given
    n = 1
    while n < len(times) and times[n] <= times[n - 1]:
        n += 1
    keep = [True] * len(times) # beyond the first save that is newer than its child: left alone
    seen = set()
    for i in range(n):
        t = times[i]
        lt = in_zone(zone, time.localtime, t)
        if t > now or t >= start.get('all', float('inf')):
            continue
        for kind, key in (('dailies', (lt.tm_year, lt.tm_yday)), ('monthlies', (lt.tm_year, lt.tm_mon)), ('yearlies', lt.tm_year)):
            if t >= start.get(kind, float('inf')):
                keep[i] = (kind, key) not in seen
                seen.add((kind, key))
                break
        else:
            keep[i] = False
    return keep

def build(plan, l):
    fs = l.host.fs
    objs, oids = [], {}
    def add(t, c):
        import hashlib
        o = hashlib.sha1(b'%s %d\0' % (t, len(c)) + c).digest()
        if o not in oids:
            oids[o] = 1
            objs.append((t, c))
        return o
    refs = {}
    tip = {}
    for bi, (b, cs) in enumerate(sorted(plan['branches'].items())):
        parent = None
        chain = []
        for k, (t, tz, tree, cdelta) in enumerate(cs):
            blob = add(b'blob', b'content %d' % tree)
            tr = add(b'tree', b'100644 f%d\0' % tree + blob)
            off = b'%+03d%02d' % (tz // 60 if tz >= 0 else -(-tz // 60), abs(tz) % 60)
            msg = b'bup save\n\nGenerated by command:\n[]\n' if k % 2 else b'message \xff %d' % k
            c = b'tree ' + tr.hex().encode() + b'\n'
            if parent:
                c += b'parent ' + parent.hex().encode() + b'\n'
            who = b'A U Thor <a@h.example>'
            c += b'author %s %d %s\n' % (who, t, off) + b'committer %s %d %s\n' % (b'C O Mitter <c@h>', t + cdelta, off) + b'\n' + msg
            parent = add(b'commit', c)
            chain.append(parent)
        tip[b] = chain
        refs[b'refs/heads/' + b.encode().replace(b' ', b'_')] = parent
    if plan['share'] and len(tip) > 1:
        bs = sorted(tip)
        refs[b'refs/heads/' + bs[-1].encode().replace(b' ', b'_')] = tip[bs[0]][-1]
        tip[bs[-1]] = tip[bs[0]]
    for n, b, k in plan['tags']:
        if b in tip and tip[b]:
            refs[b'refs/tags/' + n.encode()] = tip[b][min(k, len(tip[b]) - 1)]
    half = len(objs) // 2
    for part in (objs[:half], objs[half:]):
        if part:
            lab.add_objects(fs, REPO, part)
    for n, o in refs.items():
        if o is not None:
            lab.set_ref(fs, REPO, n, o)
    fs.sync_all()
    return refs

def info(r, o):
    c = r.get(o, b'commit')
    return b'\n'.join(x for x in c.split(b'\n\n', 1)[0].split(b'\n') if not x.startswith(b'parent ')) + b'\n\n' + c.split(b'\n\n', 1)[1]

def histories(r, refs=None):
    out = {}
    for n, o in (refs or r.refs()).items():
        if n.startswith(b'refs/heads/'):
            out[n] = [info(r, c) for c in r.history(o)]
        else:
            out[n] = o
    return out

def execute(plan, rec):
    plan = dict(plan, branches={b: c for b, c in plan['branches'].items() if c})
    l = Lab(dict(plan['cfg'], trace=plan.get('trace'), epoch=NOW * SEC))
    host = l.host
    zone = plan['zone'].encode()
    host.env[b'TZ'] = zone
    if not plan['branches']:
        return
    refs = build(plan, l)
    if plan['midx']:
        l.bup('midx', '-f')
    r0 = Repo(host.fs)
    must_complete(r0, 'at the start')
    h0 = histories(r0)
    brs = sorted(n for n in refs if n.startswith(b'refs/heads/') and refs[n] is not None)
    hist = {b: r0.history(refs[b]) for b in brs}
    names = {b: lab.save_names(r0, hist[b], zone) for b in brs}
    times = {b: [r0.commit(c)['author_time'] for c in hist[b]] for b in brs}
    if b'DST' in zone or b'EDT' in zone or b'CEST' in zone:
        rec.probe('dst')
    if any(t[i] < t[i + 1] for t in times.values() for i in range(len(t) - 1)):
        rec.probe('backwards')
    if any(len(set(t)) < len(t) for t in times.values()):
        rec.probe('duplicates')
    expect = {b: list(range(len(hist[b]))) for b in brs}
    fail = False
    if plan['kind'] == 'rm':
        args = ['rm', '--unsafe']
        gone = {}
        for b, k in plan['rm']:
            n = b'refs/heads/' + b.encode().replace(b' ', b'_')
            if n not in hist or k == 'bad':
                args.append(b'/nope' if n not in hist else n[10:] + b'/1999-01-01-000000')
                fail = True
            elif k is None:
                args.append(n[10:])
                gone.setdefault(n, set()).update(range(len(hist[n])))
                rec.probe('rm-branch')
            elif k == 'latest':
                args.append(n[10:] + b'/latest')
                fail = True
            else:
                k = k % len(hist[n])
                args.append(n[10:] + b'/' + names[n][k])
                gone.setdefault(n, set()).add(k)
                rec.probe('rm-save')
        if len(args) == 2:
            return
        for n, g in gone.items():
            expect[n] = [k for k in expect[n] if k not in g]
    else:
        rec.probe('prune')
        now = plan['wrt']
        args = ['prune-older', '--unsafe', '--gc' if plan['gc'] else '--no-gc']
        if now is None:
            now = NOW + 5
            args += ['--wrt', str(now)] if plan['tseed'] % 3 else []
        else:
            args += ['--wrt', str(now)]
        if any(t > now for x in times.values() for t in x):
            rec.probe('future')
        if not plan['keep']:
            return
        for k, p in plan['keep']:
            args.append(f'--keep-{k}-for={p}')
        only = [b'refs/heads/' + b.encode().replace(b' ', b'_') for b in plan['only']]
        args += [b[11:] for b in only]
        if '--wrt' not in args: # the time at which it runs
            now = (l.w.epoch + l.w.now) // SEC
            starts = [now - period(p) for k, p in plan['keep']]
            if any(abs(t - s) <= 30 for x in times.values() for t in x for s in starts + [now]):
                return
        for b in brs:
            if only and b not in only:
                continue
            kp = policy(plan, times[b], now, zone)
            expect[b] = [k for k in expect[b] if kp[k]]
        if any(in_zone(zone, lambda a, b: a != b and __import__('time').localtime(a)[7] == __import__('time').localtime(b)[7], x[i], x[i + 1])
               and abs(x[i] - x[i + 1]) > 300 * DAY for x in times.values() for i in range(len(x) - 1)):
            rec.probe('year-apart')
        pr = l.bup(*args, '--pretend')
        if pr.rc:
            raise Violation('command-failed', f'{args} --pretend exited {pr.rc}: {pr.err[-400:].decode("utf-8", "replace")}')
        want = {b'%s %s/%s' % (b'+' if k in expect[b] else b'-', b[11:], names[b][k])
                for b in brs if not only or b in only for k in range(len(hist[b]))}
        got = set(pr.out.splitlines())
        rec.probe('pretend')
        if got != want:
            raise Violation('wrong-pretend', f'{args} (zone {plan["zone"]}): says {sorted(got - want)[:4]}, expected {sorted(want - got)[:4]}')
        if Repo(host.fs).refs() != refs_now(refs):
            raise Violation('pretend-changed', 'refs changed')
    if fail:
        expect = {b: list(range(len(hist[b]))) for b in brs}
    new = dict(h0)
    for b in brs:
        e = [h0[b][k] for k in expect[b]]
        if e:
            new[b] = e
        else:
            del new[b]
            rec.probe('all-removed')
    if new != h0:
        rec.probe('removed')
        rec.state(*(x for b in brs for x in times[b]), str(args))
        if any(0 < len(expect[b]) < len(hist[b]) for b in brs):
            rec.probe('kept-some')
    base = host.fs.clone()
    now_ns = l.w.epoch + l.w.now
    crash = None
    if plan['mode'] == 'crash':
        def image(img, where):
            rec.probe('image')
            between(Repo(img), h0, new, 'after the crash')
        crash = Crashes(l, host, sampler(plan['tseed'], .5), image, plan.get('trial'), rec, 'rm')
        l.w.observers.append(crash)
    r = l.bup(*args)
    l.w.observers.clear()
    if l.w.harness_errors:
        raise HarnessError(str(l.w.harness_errors[0]))
    if crash:
        crash.check()
    final(l, plan, args, r, refs, h0, new, fail, rec)
    rec.world(l.w)
    l.close()
    if plan['mode'] == 'fault' and not fail:
        rng = subrng(plan['tseed'], 'f')
        specs = [plan['fault']] if plan.get('fault') else [fault_spec(rng) for _ in range(6)]
        for spec in specs:
            l = Lab(dict(plan['cfg'], trace=plan.get('trace'), epoch=now_ns, seed=spec['seed']), fs=base.clone())
            l.host.env[b'TZ'] = zone
            f = Fault(spec)
            l.w.faults.append(f)
            r = l.bup(*args)
            l.w.faults.clear()
            if l.w.harness_errors:
                raise HarnessError(str(l.w.harness_errors[0]))
            if f.fired:
                rec.probe('fault')
            rec.trials += 1
            try:
                got = between(Repo(l.host.fs), h0, new, f'{args} with {spec["action"]} {spec.get("errno", "")} at {f.where} (exit {r.rc})')
                if r.rc == 0 and got != new:
                    raise Violation('silent-failure', f'{args} exited 0, but {spec["action"]} {spec.get("errno", "")} at {f.where} kept it from finishing')
            except Violation as ex:
                ex.pin = {'fault': spec}
                raise
            rec.world(l.w)
            l.close()

CALLS = {'write': ('ENOSPC', 'EIO'), 'read': ('EIO',), 'open': ('EIO', 'EMFILE'), 'creat': ('ENOSPC',), 'fsync': ('EIO',), 'rename': ('EIO',),
         'mmap': ('ENOMEM',), 'fork': ('ENOMEM',), 'unlink': ('EIO',)}

def fault_spec(rng):
    c = rng.choice(sorted(CALLS))
    prog = rng.choice(('bup', 'bup', 'bup', 'git'))
    s = {'calls': [c], 'nth': int(rng.random() ** 2 * 60), 'seed': rng.randrange(1 << 30), 'prog': prog}
    if rng.random() < .2:
        return dict(s, action='int' if prog == 'bup' else 'kill')
    if c in ('read', 'write') and rng.random() < .3:
        return dict(s, action='short', persist=True)
    return dict(s, action='err', errno=rng.choice(CALLS[c]), persist=rng.random() < .3)

def refs_now(refs):
    return {n: o for n, o in refs.items() if o is not None}

def between(r, h0, new, what):
    """Every ref at its old or its new value."""
    try:
        got = histories(r)
    except (Bad, Missing) as ex:
        raise Violation('bad-ref', f'{what}: {ex}')
    must_complete(r, what)
    for n in set(h0) | set(got):
        if got.get(n) not in (h0.get(n), new.get(n)):
            raise Violation('torn', f'{what}: {dec(n)} has neither its old nor its new history')
    return got

def final(l, plan, args, r, refs, h0, new, fail, rec):
    rr = Repo(l.host.fs)
    what = f'{args} (zone {plan["zone"]})'
    must_complete(rr, what)
    if fail:
        rec.probe('refused')
        if r.rc == 0:
            raise Violation('bad-accepted', f'{what} exited 0')
    elif r.rc:
        raise Violation('command-failed', f'{what} exited {r.rc}: {r.err[-500:].decode("utf-8", "replace")}')
    got = histories(rr)
    if got != new:
        for n in sorted(set(got) | set(new)):
            if got.get(n) != new.get(n):
                g, w = got.get(n), new.get(n)
                if isinstance(w, bytes) or isinstance(g, bytes):
                    raise Violation('ref-moved', f'{what}: {dec(n)} changed')
                o = h0.get(n, [])
                def idx(x):
                    return None if x is None else [o.index(c) if c in o else 'changed' for c in x]
                raise Violation('wrong-saves', f'{what}: {dec(n)} has saves {idx(g)}, expected {idx(w)} (0 is the newest)')
