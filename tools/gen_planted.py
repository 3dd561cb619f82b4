#!/usr/bin/env python3
# rewrites the last section of DESIGN.md from the meta.json files of the planted bugs
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = '## Planted bugs\n'
t = open(root + '/DESIGN.md').read(); t = t[:t.index(head)] + head + '''
Each is caught (exit 1, replay reproduced) by the quick check of the property named; each passes the 68 stable tests.

| bug | caught by | what it breaks | what it needs |
|-----|-----------|----------------|---------------|
'''
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); c = lambda s: ' '.join(s.split()).replace('|', '\\|')
    t += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], c(m['what_it_breaks']), c(m['needs']))
open(root + '/DESIGN.md', 'w').write(t)
