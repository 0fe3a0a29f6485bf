#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
by = {}
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, 'meta.json')))
    by.setdefault(m['property'], []).append(b)
print('| check | planted bugs it catches |\n|---|---|')
for p in sorted(by):
    print('| %s | %s |' % (p, ', '.join(by[p])))
