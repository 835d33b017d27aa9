#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (properties, planted bugs). Not used by any check."""
import sys, json, glob, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/harness')
import spec
d = open(R + '/DESIGN.md').read()
rows = ["| id | enumerated | oracle | why tests cannot |", "|---|---|---|---|"]
for p in spec.SPEC:
    rows.append("| %s %s | %s Bounds: %s | %s | %s |" % (p['id'], p['title'], p['rule'], p['bounds'], "a second real system" if p['id'] in ('C05', 'C31', 'C32', 'C33') else "reference model in lockstep, see *Oracles* below", p['why']))
d = re.sub(r'(## Properties\n\n).*?(\n\nNothing is listed)', lambda m: m.group(1) + "\n".join(rows) + m.group(2), d, flags=re.S)
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
d = re.sub(r'(<!-- planted -->\n).*?(<!-- end planted -->)', lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), d, flags=re.S)
open(R + '/DESIGN.md', 'w').write(d)
