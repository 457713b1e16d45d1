"""Prints the table of planted bugs for DESIGN.md; results are those of tools/catch.sh recorded in tools/catches.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, 'tools', 'catches.json')))
print('| bug | needs | caught by |\n|---|---|---|')
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(d + '/meta.json'))
    b = os.path.basename(d)
    print('| %s | %s | %s |' % (b, m['needs'].replace('|', '/'), res.get(b, '?')))
