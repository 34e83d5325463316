"""Shared pieces of the property checks."""

import json

from sim import gen, lab, oracle
from sim.gen import TreeGen, enc, dec
from sim.kernel import Fault, G, HarnessError, SimHang, subrng
from sim.lab import Lab, REPO, SRC
from sim.fs import FS
from sim.oracle import Repo, snapshot, diff_snap, Bad, Missing
from sim.runner import Violation, default_shrinks

SEC = 10**9

def split_config(rng):
    c = ''
    r = rng.random()
    if r < .6:
        c += '[bup "split"]\n\tfiles = legacy:%d\n' % rng.choice((13, 13, 13, 14, 16))
        if rng.random() < .4:
            c += '\ttrees = true\n'
    elif r < .75:
        c += '[bup "split"]\n\ttrees = true\n'
    return c

def fan(rng):
    # (deep trees)
    return rng.choice(([], ['--fanout=2'], ['--fanout=4']))

def repo_config(rng, packs=True):
    c = split_config(rng)
    p = []
    if packs and rng.random() < .5:
        p.append('packSizeLimit = %d' % rng.choice((2000, 10000, 40000, 100000)))
    if rng.random() < .4:
        p.append('compression = %d' % rng.choice((0, 1, 6, 9)))
    if p:
        c += '[pack]\n' + ''.join(f'\t{x}\n' for x in p)
    return c

def base_cfg(rng, **kw):
    cfg = {
        'seed': rng.randrange(1 << 30),
        'config': repo_config(rng),
        'personality': rng.choice(('posix', 'posix', 'journal')),
        'gran': rng.choice((1, 1, 4_000_000, SEC)),
        'ino': rng.choice(('lowest', 'fresh')),
        'frag': rng.choice(('none', 'mixed')),
    }
    cfg.update(kw)
    return cfg

def scratch():
    f = FS()
    f.mkdirs(SRC)
    return f

def treegen(rng, **kw):
    return TreeGen(rng, scratch(), SRC, **kw)

def B(*args, **opts):
    return ['bup', list(args), opts] if opts else ['bup', list(args)]


def closure_problem(r):
    """Text describing an incomplete or corrupt ref target, or None."""
    try:
        inc = r.incomplete()
    except (Bad, Missing) as ex:
        return str(ex)
    if inc:
        n, o = sorted(inc.items())[0]
        return f'{n.decode("latin-1")} needs missing object {o}'
    return None

def must_complete(r, what):
    p = closure_problem(r)
    if p:
        extra = '; '.join(f'{dec(a)}: {b}' for a, b in r.problems[:3])
        raise Violation('incomplete', f'{what}: {p}' + (f' ({extra})' if extra else ''))

def refs_str(refs):
    return {dec(k): v.hex()[:10] for k, v in sorted(refs.items())}


def run_pre(l, ops):
    """Run the set-up operations; results of commands that must succeed are checked."""
    for op in ops:
        r = l.do(op)
        if r is not None:
            allowed = op[2].get('rc', [0]) if len(op) > 2 else [0]
            if 'any' not in allowed and r.rc not in allowed:
                if r.proc.world.harness_errors:
                    raise HarnessError(str(r.proc.world.harness_errors[0]))
                raise SetupFailed(op, r)

class SetupFailed(Violation):
    """A fault-free command of the history failed."""
    def __init__(self, op, r):
        super().__init__('command-failed', f'{op[1]} exited {r.rc} without any fault: '
                         f'{r.err[-800:].decode("utf-8", "replace")}')


def note_refs(vals, refs):
    for n, o in refs.items():
        vals.setdefault(n, set()).add(o)


class Crashes:
    """Captures crash images of a host while something runs (a world observer).

    sample(k): list of (mode, seed) for the kth system call of the host that follows a change
    of its file system; fn(image, where) checks the image. mode: 'kill' (processes die, the
    machine stays up), or 'none' 'all' 'random' (power loss, by what survives)."""

    def __init__(self, l, host, sample, fn, pin=None, rec=None, tag=''):
        self.l, self.host, self.sample, self.fn = l, host, sample, fn
        self.k = 0
        self.muts = -1
        self.stop = None
        self.pin = pin
        self.rec = rec
        self.tag = tag

    def __call__(self, p, call, path, info):
        if p.host is self.host:
            self.at(f'{p.name()}: before {call} {path!r}')

    def at(self, where):
        if self.stop is not None or self.host.fs.muts == self.muts:
            return
        self.muts = self.host.fs.muts
        k = self.k
        self.k += 1
        if self.pin is not None:
            if self.pin[0] == self.tag and self.pin[1] == k:
                self.shoot(k, self.pin[2], self.pin[3], where)
            return
        for mode, seed in self.sample(k):
            self.shoot(k, mode, seed, where)
            if self.stop is not None:
                return

    def shoot(self, k, mode, seed, where):
        img = crash_image(self.l, self.host, mode, seed, k)
        cur, self.l.w.current = self.l.w.current, None
        try:
            if self.rec is not None:
                self.rec.trials += 1
                self.rec.fault('process-kill' if mode == 'kill' else f'power-loss-{mode}')
            self.fn(img, where)
        except Violation as ex:
            # raised when the target has finished
            ex.pin = {'trial': [self.tag, k, mode, seed]}
            ex.msg = f'crash ({mode}) {self.tag} {where}: {ex.msg}'
            self.stop = ex
            if self.l.w.tracing is not None:
                self.l.w.tracing.append((self.l.w.now, 0, 'CRASH', where))
        finally:
            self.l.w.current = cur

    def check(self):
        if self.stop is not None:
            raise self.stop

def crash_image(l, host, mode, seed, k):
    if mode == 'kill':
        return host.fs.clone()
    return host.fs.crash_image(subrng(seed, 'image', k), l.cfg.get('personality', 'posix'), mode)

MODES = ('kill', 'none', 'random', 'random', 'random', 'all')

def sampler(seed, p, n=1, modes=MODES):
    def sample(k):
        r = subrng(seed, 'sample', k)
        return [(r.choice(modes), r.randrange(1 << 30)) for _ in range(n) if r.random() < p]
    return sample
