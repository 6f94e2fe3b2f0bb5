#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the
logs tools/catch.sh left in /tmp/catch_<id>.log (rows without a log keep their text)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + '/DESIGN.md').read()
B, E = '<!-- seeds -->\n', '<!-- /seeds -->'
if '@@SEEDS@@' in d:
    d = d.replace('@@SEEDS@@', B + E)
old = dict(re.findall(r'^\| ([a-z]\w+-[\w-]+) (\|.*)$', d[d.index(B):d.index(E)], re.M))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    log = '/tmp/catch_%s.log' % i
    if os.path.exists(log):
        t = open(log).read()
        v = re.search(r'^VIOLATION.*$', t, re.M)
        how = 'MISSED' if not v else ('failed obligation only' if 'no-failing-input-found' in v.group(0) else 'failing input')
        n = len(re.findall(r'^failed obligation', t, re.M))
        f = re.findall(r'^failed obligation: (\w+) (\S+)', t, re.M)
        ob = ('%d failed obligation(s), %s' % (n, f[0][0])) if n else ('proof undecided' if 'undecided (' in t else 'outside the proved functions')
        r = '| %s | %s; %s | %s |' % (j['property'], how, ob, j['needs'].replace('|', '/'))
    else:
        r = old.get(i, '| %s | not run | %s |' % (j['property'], j['needs']))
    rows.append('| %s %s' % (i, r))
tab = '| planted bug | property | caught by its check with | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
a, b = d.index(B) + len(B), d.index(E)
open(V + '/DESIGN.md', 'w').write(d[:a] + tab + d[b:])
print(tab)
