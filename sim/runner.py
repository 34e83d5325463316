"""Seeded search: plans are generated from (seed, property, index), executed on
worker processes, and a violation is minimised and written as a replay file."""

import gc, hashlib, importlib, json, os, pickle, select, signal, struct, sys, time, traceback

from .kernel import G, HarnessError, SimHang, SimKilled, subrng, subseed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


class Violation(Exception):
    """cls identifies the kind of violation (kept while minimising)."""
    def __init__(self, cls, msg, pin=None):
        super().__init__(f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg
        self.pin = pin # dict merged into the plan to replay just this trial


class Rec:
    """What a run covered."""
    def __init__(self):
        self.runs = 0
        self.trials = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_ns = 0
        self.steps = 0
        self.syscalls = {}
        self.stub_steps = 0
        self.samples = []
        self.digest = hashlib.sha256()
        self.known = {}
        self.trace = None

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n
    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n
    def state(self, *parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(repr(p).encode() if not isinstance(p, bytes) else p)
            h.update(b'\0')
        d = h.digest()[:8]
        self.states.add(d)
        self.digest.update(d)
    def world(self, w):
        """Account for a finished world."""
        self.sim_ns += w.now
        self.steps += w.steps
        for k, n in w.fault_counts.items():
            self.fault(k, n)
        self.digest.update(w.trace_digest().encode())
    def merge(self, o):
        for k in ('runs', 'trials', 'sim_ns', 'steps', 'stub_steps'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k in ('faults', 'probes', 'known'):
            d = getattr(self, k)
            for n, v in getattr(o, k).items():
                d[n] = d.get(n, 0) + v
        self.states |= o.states
        self.samples.extend(o.samples)
        del self.samples[6:]


def load(prop):
    return importlib.import_module(f'props.{prop.lower()}')


def known_findings(prop):
    try:
        with open(VERIF + '/known_findings.json') as f:
            k = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in k['findings'] if x['property'] == prop and x['status'] == 'open']

def known_match(prop, cls, msg):
    import re
    for k in known_findings(prop):
        if re.fullmatch(k['class'], cls) and re.search(k['message'], msg, re.S):
            return k
    return None


def execute(mod, plan, rec):
    """Returns None or (cls, msg, pin). Raises HarnessError."""
    gc.disable()
    rec.digest.update(json.dumps(plan, sort_keys=True).encode())
    try:
        mod.execute(plan, rec)
        return None
    except Violation as ex:
        if G.world is not None:
            rec.trace = G.world.tracing
        return ex.cls, ex.msg, ex.pin
    except SimHang as ex:
        if G.world is not None:
            rec.trace = G.world.tracing
        return 'hang', str(ex), None
    finally:
        w, G.world = G.world, None
        if w is not None:
            try:
                w.current = None
                w.abandon()
            except Exception:
                pass
        gc.collect()


def plan_for(mod, seed, tier, i):
    p = mod.plan(subrng(seed, mod.ID, i), tier, i)
    p.setdefault('seed', subseed(seed, mod.ID, i, 'run') & 0x7fffffff)
    p['index'] = i
    return p


# ---------------------------------------------------------------- workers

def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('!I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]

def _unraisable(u): pass

def worker(mod, seed, tier, first, step, deadline, fd, limit):
    sys.unraisablehook = _unraisable
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    i = first
    try:
        while time.monotonic() < deadline and (limit is None or i < limit):
            rec = Rec()
            plan = plan_for(mod, seed, tier, i)
            _send(fd, ('start', i))
            v = None
            while True:
                r = execute(mod, plan, rec)
                if r is None:
                    break
                k = known_match(mod.ID, r[0], r[1])
                if k is None:
                    v = r
                    break
                rec.known[k['id']] = rec.known.get(k['id'], 0) + 1
                plan.setdefault('known', []).append(k['id'])
                break # the rest of this plan is not explored
            rec.runs += 1
            if v is not None:
                _send(fd, ('violation', i, plan, v))
                os._exit(0)
            if len(rec.samples) == 0 and i < 24:
                rec.samples.append(mod.sample(plan) if hasattr(mod, 'sample') else plan)
            dg = rec.digest.hexdigest()
            rec.digest = None
            rec.trace = None
            _send(fd, ('done', i, rec, dg))
            i += step
        _send(fd, ('end',))
        os._exit(0)
    except BaseException:
        try:
            _send(fd, ('error', i, traceback.format_exc()))
        finally:
            os._exit(0)


class Child:
    def __init__(self, fn):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                fn(w)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(70)
        os.close(w)
        self.fd = r
        self.buf = b''
        self.eof = False
        self.cur = None
        self.last = time.monotonic()
    def feed(self):
        b = os.read(self.fd, 1 << 20)
        if not b:
            self.eof = True
        self.buf += b
        out = []
        while len(self.buf) >= 4:
            n = struct.unpack('!I', self.buf[:4])[0]
            if len(self.buf) < 4 + n:
                break
            out.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        return out
    def stop(self):
        try:
            os.kill(self.pid, 9)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        os.close(self.fd)


def in_children(jobs, timeout, par=NWORKERS, first=False):
    """Run jobs (callables returning a picklable value) in forked children.
    Yields results in order; None for a job that failed. With first, stop after the
    lowest-numbered job with a true result."""
    res = [None] * len(jobs)
    state = [0] * len(jobs)
    run = {}
    nxt = 0
    t_end = {}
    while True:
        while nxt < len(jobs) and len(run) < par:
            def fn(fd, j=jobs[nxt]):
                sys.unraisablehook = _unraisable
                _send(fd, ('r', j()))
                os._exit(0)
            run[nxt] = Child(fn)
            t_end[nxt] = time.monotonic() + timeout
            nxt += 1
        if not run:
            break
        rl, _, _ = select.select([c.fd for c in run.values()], [], [], 1.0)
        for k, c in list(run.items()):
            if c.fd in rl:
                for m in c.feed():
                    res[k] = m[1]
                if c.eof:
                    c.stop()
                    del run[k]
                    state[k] = 1
            elif time.monotonic() > t_end[k]:
                c.stop()
                del run[k]
                state[k] = 1
        if first:
            for k in range(len(jobs)):
                if not state[k]:
                    break
                if res[k]:
                    for c in run.values():
                        c.stop()
                    return res
    return res


# ---------------------------------------------------------------- minimisation

def _try(mod, plan, cls):
    """The violation of class cls that the plan shows, or None."""
    for p in ([plan, {k: v for k, v in plan.items() if k != 'trial'}] if 'trial' in plan else [plan]):
        try:
            v = execute(mod, p, Rec())
        except Exception:
            continue
        if v is not None and v[0] == cls and known_match(mod.ID, v[0], v[1]) is None:
            q = dict(p)
            if v[2]:
                q.update(v[2])
            return q, v[:2]
    return None

def default_shrinks(plan, lists):
    """Candidates with parts of the named lists removed (paths like 'ops' or 'ops.*.1')."""
    for name in lists:
        for path in _expand(plan, name.split('.')):
            l = _at(plan, path)
            if not isinstance(l, list) or not l:
                continue
            if path[-1] == 1 and _at(plan, path[:-1])[0] != 'fs':
                continue  # (a command's arguments)
            n = len(l)
            size = n
            while size >= 1:
                for a in range(0, n, size):
                    if size == n and n == 1 and name.endswith('!'):
                        continue
                    yield _with(plan, path, l[:a] + l[a + size:])
                size //= 2

def _at(o, path):
    for p in path:
        o = o[p]
    return o

def _with(o, path, v):
    if not path:
        return v
    c = list(o) if isinstance(o, list) else dict(o)
    c[path[0]] = _with(o[path[0]], path[1:], v)
    return c

def _expand(o, parts, pre=()):
    if not parts:
        yield pre
        return
    p = parts[0].rstrip('!')
    if p == '*':
        if isinstance(o, list):
            for i in range(len(o)):
                yield from _expand(o[i], parts[1:], pre + (i,))
        elif isinstance(o, dict):
            for k in o:
                yield from _expand(o[k], parts[1:], pre + (k,))
    elif isinstance(o, dict):
        if p in o:
            yield from _expand(o[p], parts[1:], pre + (p,))
    elif isinstance(o, list) and p.isdigit() and int(p) < len(o):
        yield from _expand(o[int(p)], parts[1:], pre + (int(p),))


def minimise(mod, plan, v, deadline, log):
    cls, msg = v[0], v[1]
    r = in_children([lambda: _try(mod, dict(plan, **(v[2] or {})), cls)], 120)[0]
    if not r:
        r = in_children([lambda: _try(mod, plan, cls)], 120)[0]
        if not r:
            return None
    best, bv = r
    rounds = 0
    progress = True
    tried = set()
    while progress and time.monotonic() < deadline:
        progress = False
        cands = []
        gen = mod.shrinks(best) if hasattr(mod, 'shrinks') else \
            default_shrinks(best, getattr(mod, 'SHRINK', ['ops']))
        for c in gen:
            k = json.dumps(c, sort_keys=True)
            if k in tried:
                continue
            cands.append((k, c))
        for at in range(0, len(cands), NWORKERS):
            if time.monotonic() >= deadline:
                break
            batch = cands[at:at + NWORKERS]
            left = max(5, min(60, deadline - time.monotonic()))
            res = in_children([lambda c=c: _try(mod, c, cls) for _, c in batch], left, first=True)
            rounds += 1
            hit = next((i for i, x in enumerate(res) if x), None)
            for _, (k, c) in zip(range(len(batch) if hit is None else hit), batch):
                tried.add(k)
            if hit is not None:
                best, bv = res[hit]
                progress = True
                break
    log(f'minimised in {rounds} rounds')
    return best, bv


# ---------------------------------------------------------------- replay

def fmt_trace(tr, n=150):
    out = []
    for r in (tr or [])[-n:]:
        out.append(' '.join(str(x) if not isinstance(x, (bytes, tuple, list)) else repr(x) for x in r
                            if x is not None))
    return out

def replay_run(mod, plan):
    """(violation or None, digest, trace)."""
    rec = Rec()
    p = json.loads(json.dumps(plan))
    p['trace'] = True
    v = execute(mod, p, rec)
    return v, rec.digest.hexdigest()[:16], rec.trace

def write_replay(mod, plan, v, seed):
    os.makedirs(VERIF + '/replays', exist_ok=True)
    d = {'property': mod.ID, 'verif_seed': seed, 'class': v[0], 'message': v[1], 'plan': plan}
    name = hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:12]
    path = f'{VERIF}/replays/{mod.ID}-{name}.json'
    with open(path, 'w') as f:
        json.dump(d, f, indent=1)
    # run it in a fresh process and record what it does
    import subprocess
    r = subprocess.run([sys.executable, VERIF + '/bin/replay', '--record', path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return path, r.returncode, r.stdout.decode(errors='replace')


# ---------------------------------------------------------------- the check

def check(prop, tier, seed, budget=None, workers=NWORKERS, limit=None):
    t0 = time.monotonic()
    mod = load(prop)
    if budget is None:
        budget = getattr(mod, 'BUDGET', {}).get(tier) or (35 if tier == 'quick' else 700)
        if os.environ.get('VERIF_BUDGET'):
            budget = float(os.environ['VERIF_BUDGET'])
    def log(s):
        print(f'[{prop}] {s}', flush=True)
    log(f'seed {seed}, tier {tier}, {workers} workers, {budget:.0f} s')
    from . import loader
    loader.preload()
    if hasattr(mod, 'setup'):
        mod.setup()
    gc.collect()
    gc.freeze()
    t1 = time.monotonic()
    deadline = t1 + budget
    kids = [Child(lambda fd, k=k: worker(mod, seed, tier, k, workers, deadline, fd, limit))
            for k in range(workers)]
    total = Rec()
    digests = {}
    errors, viols = [], []
    live = list(kids)
    stuck_after = getattr(mod, 'STUCK', 150)
    while live:
        rl, _, _ = select.select([c.fd for c in live], [], [], 1.0)
        for c in list(live):
            if c.fd in rl:
                for m in c.feed():
                    c.last = time.monotonic()
                    if m[0] == 'start':
                        c.cur = m[1]
                    elif m[0] == 'done':
                        total.merge(m[2])
                        digests[m[1]] = m[3]
                    elif m[0] == 'violation':
                        viols.append(m[1:])
                    elif m[0] == 'error':
                        errors.append((m[1], m[2]))
                if c.eof:
                    live.remove(c)
                    c.stop()
            elif time.monotonic() - c.last > stuck_after:
                errors.append((c.cur, f'worker stuck in plan {c.cur} for {stuck_after} s'))
                live.remove(c)
                c.stop()
        if viols:
            # let the others stop; the lowest index found wins
            for c in live:
                c.stop()
            break
    search_wall = time.monotonic() - t1
    rc = 0
    out = []
    for k in known_findings(prop):
        if total.known.get(k['id']) or k.get('always'):
            print(f'KNOWN-FINDING: property={prop} {k["id"]}: {k["what"]}', flush=True)
    nviol = 0
    if viols:
        viols.sort(key=lambda x: x[0])
        i, plan, v = viols[0]
        nviol = len(viols)
        log(f'violation in plan {i}: {v[0]}: {v[1][:2000]}')
        m = minimise(mod, plan, v, time.monotonic() + (60 if tier == 'quick' else 240), log)
        if m is None:
            errors.append((i, f'violation did not reproduce: {v[0]}: {v[1]}'))
        else:
            best, bv = m
            path, prc, text = write_replay(mod, best, bv, seed)
            if prc != 1:
                errors.append((i, f'replay of {path} exited {prc}:\n{text}'))
            else:
                log(f'minimised violation: {bv[0]}: {bv[1][:3000]}')
                print(f'VIOLATION property={prop} replay={path}', flush=True)
                rc = 1
    if rc == 0:
        # determinism: some plans again, in another process
        again = sorted(digests)[:2] + sorted(digests)[-1:]
        if again and not viols and not errors:
            def redo(i):
                rec = Rec()
                execute(mod, plan_for(mod, seed, tier, i), rec)
                return rec.digest.hexdigest()
            res = in_children([lambda i=i: redo(i) for i in again], 150)
            for i, d in zip(again, res):
                if d != digests[i]:
                    errors.append((i, f'plan {i} is not deterministic: {digests[i]} {d}'))
            total.probe('determinism_rechecks', len(again))
        if errors:
            rc = 2
        elif total.runs < getattr(mod, 'MIN_RUNS', 3):
            errors.append((None, f'only {total.runs} runs completed'))
            rc = 2
    for i, e in errors[:3]:
        print(f'HARNESS-ERROR property={prop} plan={i}: {e}', flush=True)
    wall = time.monotonic() - t0
    probes0 = [p for p in getattr(mod, 'PROBES', []) if not total.probes.get(p)]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': total.trials or total.runs,
            'distinct_nontrivial': len(total.states),
            'rule': mod.RULE,
            'samples': total.samples or [{}],
            'simulated_runs': total.runs,
            'fault_trials': total.trials,
            'seeds_per_hour': round(total.runs / max(search_wall, .001) * 3600),
            'trials_per_hour': round((total.trials or total.runs) / max(search_wall, .001) * 3600),
            'simulated_seconds': round(total.sim_ns / 1e9, 3),
            'simulated_system_calls': total.steps,
            'faults_fired': dict(sorted(total.faults.items())),
            'probes': dict(sorted(total.probes.items())),
            'probes_not_hit': probes0,
            'components_real': ['all Python code under /repo/lib/bup that the commands run',
                                'lib/bup/_helpers.c and _hashsplit.c (compiled from /repo, libc calls redirected)',
                                'CPython os/shutil/tempfile/subprocess/selectors/posixpath/glob sources',
                                'zlib, hashlib, sqlite3 engine'],
            'components_stub': ['kernel (processes, pipes, clocks, scheduler) and file system: sim/kernel.py, sim/fs.py, sim/simposix.py',
                                'git, par2 and ssh programs: sim/programs.py (git and par2 cross-validated by tools/xval.py)'],
            'known_findings_seen': total.known,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': nviol if rc == 1 else 0,
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    log(f'{total.runs} runs, {total.trials} trials, {len(total.states)} states, '
        f'{total.sim_ns / 1e9:.1f} simulated s, faults {total.faults}, probes {total.probes}, '
        f'{wall:.1f} s')
    if probes0:
        log(f'probes not hit: {probes0}')
    return rc
