#!/usr/bin/env python3
"""Rewrite the planted-bug section at the end of DESIGN.md from the meta.json files (documentation only)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for m in sorted(glob.glob(f'{root}/seeded/*/meta.json') + glob.glob(f'{root}/seeded_on_fixes/*/meta.json')):
    d = json.load(open(m))
    rows.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d['needs']))
p = f'{root}/DESIGN.md'
t = open(p).read()
mark = '## Planted bugs and the checks that catch them\n'
t = t.split(mark)[0].rstrip() + '\n\n' + mark + '''
Each patch in `seeded/` (and in `seeded_on_fixes/`, which change only lines of
our own `fix:` commits) was confirmed in a scratch copy (builds, 20 tests pass,
demo 0 before and nonzero after). At quick, seed 1, every one is caught by the
check of its own property (exit 1 and that property's VIOLATION line). Engine
bugs are usually also caught by C20 and C21, which compare whole routes.

'''
for k in sorted(rows):
    t += f'* **{k}**: ' + '; '.join(f'`{i}` ({n})' for i, n in rows[k]) + '\n'
open(p, 'w').write(t)
