#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeds/*.py."""
import glob, runpy, re
rows=['| bug | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
for f in sorted(glob.glob('/verif/tools/dev/seeds/*.py')):
    for k,s in runpy.run_path(f)['SEEDS'].items():
        e=lambda t:t.replace('|','\\|').replace('\n',' ')
        rows.append(f"| {k} | {s['property']} | {e(s['breaks'])} | {e(s['needs'])} | {s.get('caught', s['property'])} |")
p='/verif/DESIGN.md'; t=open(p).read()
t=re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m:'<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- /seeds -->', t, flags=re.S)
open(p,'w').write(t)
