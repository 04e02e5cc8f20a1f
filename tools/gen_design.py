"""Rewrites the table of seeded bugs in DESIGN.md from their meta data."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['<!-- seeds -->', '| bug | caught by | needs | breaks |', '|-----|-----------|-------|--------|']
for d in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
rows.append('<!-- end -->')
p = os.path.join(here, 'DESIGN.md')
t = open(p).read()
a, b = t.index('<!-- seeds -->'), t.index('<!-- end -->') + len('<!-- end -->')
open(p, 'w').write(t[:a] + '\n'.join(rows) + t[b:])
print(len(rows) - 4, 'seeded bugs')
