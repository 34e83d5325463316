#!/usr/bin/env python3
"""determinism.py [PLANS] [SEED] [PROPERTY...]: execute the first PLANS plans of each property
in order in one process, in reverse order in another, and each in a process of its own, and
compare the execution digests (all system calls in order, with their outcome)."""

import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
from sim import loader, runner

k = int(sys.argv[1]) if len(sys.argv) > 1 else 4
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
props = sys.argv[3:] or ['P%02d' % i for i in range(1, 25)]
loader.preload()
sys.unraisablehook = lambda u: None
bad = 0
for p in props:
    mod = runner.load(p)
    if hasattr(mod, 'setup'):
        mod.setup()
    def one(i):
        rec = runner.Rec()
        try:
            runner.execute(mod, runner.plan_for(mod, seed, 'quick', i), rec)
        except runner.Violation as ex:
            return 'violation ' + str(ex)[:100]
        return rec.digest.hexdigest()
    def many(l):
        return {i: one(i) for i in l}
    jobs = [lambda: many(range(k)), lambda: many(reversed(range(k)))] + [lambda i=i: many([i]) for i in range(k)]
    res = runner.in_children(jobs, 900)
    diff = []
    for i in range(k):
        ds = {repr(r.get(i) if isinstance(r, dict) else r) for r in (res[0], res[1], res[2 + i])}
        if len(ds) != 1:
            diff.append((i, ds))
    bad += len(diff)
    print(p, 'same' if not diff else diff, flush=True)
sys.exit(1 if bad else 0)
