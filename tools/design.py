#!/usr/bin/env python3
"""Assembles DESIGN.md from its parts, known-findings.txt and seeded/*/meta.json."""
import json, os, glob
h = os.path.dirname(os.path.abspath(__file__)); v = os.path.dirname(h)
r = lambda n: open(os.path.join(h, n)).read()
out = r('design_head.md') + r('design_props.md')
out += "## 5. Genuine defects found, all repaired (\"fix:\" commits in /repo)\n\n"
for l in open(os.path.join(v, 'known-findings.txt')):
    if l.startswith('fixed: '):
        _, p, c, t = l.strip().split(' ', 3)
        out += "* %s (%s): %s.\n" % (p.split('=')[1], c, t)
out += "\nNo known finding is left unrepaired, so no check prints a KNOWN-FINDING line.\n\n"
out += r('design_tail.md')
out += "| planted bug | needs | breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(v, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    out += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m['needs'], m['what_it_breaks'], m.get('caught_by', m['property']))
open(os.path.join(v, 'DESIGN.md'), 'w').write(out)
