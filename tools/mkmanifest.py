#!/usr/bin/env python3
"""Write MANIFEST.json: one check for every property with a module in props/."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P25': 'Pure functions of their arguments: no concurrency, time, I/O or multi-party behaviour for a schedule or fault to act on. '
        '(The encoders are exercised by every simulated run of the commands that use them, but nothing is decided about them.)',
}
NOTES = {}
checks, na = [], []
for l in open(here + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    m = f'{here}/props/{i.lower()}.py'
    if os.path.exists(m):
        src = open(m).read()
        lvl = re.search(r"^LEVEL = '(\w+)'", src, re.M)
        note = re.search(r"^NOTE = \((.*?)\)\n", src, re.M | re.S)
        note = eval('(' + note.group(1) + ')') if note else \
            'Seeded random search over schedules, faults and histories on the real commands in a simulated system; a clean run is no proof.'
        checks.append({'property': i, 'quick_cmd': f'bin/check {i} --tier quick',
                       'thorough_cmd': f'bin/check {i} --tier thorough',
                       'technique': 'deterministic simulation with fault injection',
                       'level': lvl.group(1) if lvl else 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check has been built for this property yet.')})
d = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are the posix/_thread/time-level modules and the libc calls of the C helpers, '
              'which the simulator replaces when it loads bup (see DESIGN.md).'}
with open(here + '/MANIFEST.json', 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
