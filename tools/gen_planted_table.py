"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json."""
import json,os,glob
s=open('/verif/DESIGN.md').read()
i=s.index('## 5. Planted changes')
t='''## 5. Planted changes

`seeded/<id>/` holds changes that compile, pass the 46 stable tests and break a property. Caught = the property's quick check exits
1 with its VIOLATION line.

| change | needs | caught by |
|---|---|---|
'''
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    t+='| %s | %s | %s |\n'%(os.path.basename(d[:-1]), m['needs'].replace('|','/'), m['property'])
t+='''
Changes that the checks missed when they were planted, and what was added for them:

* moves that copy (d07): the statement of D07 and its check now count the copies that a move makes;
* discards in blocks of 65536 (n10): N10 has long discards and draws (70000 quick, 200000 thorough);
* nodes added below parents outside of the tree: G05 offers such parents; the unchanged tree failed this too (repaired, section 3).

A change to the marginal shortcut check was dropped, because the stable planning tests noticed it. Besides the changes kept here, a
few hundred small mutations (operators, bounds, dropped statements) were run through the checks; survivors were either equivalent or
led to further scenarios.
'''
open('/verif/DESIGN.md','w').write(s[:i]+t)
