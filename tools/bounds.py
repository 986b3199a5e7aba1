#!/usr/bin/env python3
"""Rewrites the bounds table of DESIGN.md from the harness comments."""
import re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(V + '/harness/pkgs/**/*.go', recursive=True)):
    for m in re.finditer(r'((?:^//.*\n)+)func (VH_(C\d\d)_\w+)', open(f).read(), re.M):
        b = re.search(r'^// Bounds: (.*)$', m.group(1), re.M)
        t = re.search(r'^// Tier: (.*)$', m.group(1), re.M)
        rows.setdefault(m.group(3), []).append('| %s | %s%s |' % (m.group(2), b.group(1) if b else '', ' (%s tier)' % t.group(1) if t else ''))
out = '| harness | bounds |\n|---|---|\n' + '\n'.join(r for p in sorted(rows) for r in rows[p]) + '\n'
d = open(V + '/DESIGN.md').read()
a, z = '<!-- bounds -->\n', '<!-- /bounds -->'
i, j = d.index(a) + len(a), d.index(z)
open(V + '/DESIGN.md', 'w').write(d[:i] + out + d[j:])
