#!/usr/bin/env python3
"""Prints, for DESIGN.md, which seed is caught by which property (from seeded/*/meta.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    print('| %s | %s | %s |' % (d, m['property'], m['needs']))
