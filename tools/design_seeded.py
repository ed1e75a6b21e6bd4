"""Prints the table of planted bugs for DESIGN.md; results are read from caught.txt lines 'ID CAUGHT|MISSED by'"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        p = l.split()
        if len(p) >= 3 and p[-1] in ('CAUGHT', 'MISSED') or (len(p) > 2 and p[2] in ('CAUGHT', 'MISSED')):
            res.setdefault(p[0], {})[p[1]] = 'CAUGHT' if 'CAUGHT' in p else 'MISSED'
print('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    r = res.get(b, {})
    print(f"| {b} | {m['property']} | {m['needs']} | {', '.join(k for k, v in sorted(r.items()) if v == 'CAUGHT') or '-'} |")
