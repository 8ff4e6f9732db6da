#!/usr/bin/env python3
"""prints the table of the planted bugs for DESIGN.md"""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(ROOT + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    print('| %s | %s | %s | %s |' % (os.path.basename(d[:-1]), m['property'], m['what_it_breaks'], m['needs']))
