"""Fill the seeded-bug table in DESIGN.md from seeded/*/meta.json (caught: tools/caught.json)."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(root + '/tools/caught.json'))
rows = []
for m in sorted(glob.glob(root + '/seeded*/*/meta.json'), key=lambda m: m.split('/')[-2]):
    d = json.load(open(m)); i = m.split('/')[-2]
    rows.append(f"| {i} | {d['property']} | {d['needs']} | {caught.get(i, '?')} |")
p = root + '/DESIGN.md'
s = open(p).read()
a = s.index('|---|---|---|---|\n') + len('|---|---|---|---|\n')
b = s.index('\n\n', a)
open(p, 'w').write(s[:a] + '\n'.join(rows) + s[b:])
