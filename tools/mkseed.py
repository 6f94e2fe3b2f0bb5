#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< JSON {edits:[[old,new,count?]], needs, breaks, demo}: makes one planted change in /tmp/plant."""
import sys, json, os, subprocess
def make(id, prop, edits, needs, breaks, demo, P='/tmp/plant'):
    S = '/verif/seeded/' + id
    os.makedirs(S, exist_ok=True)
    subprocess.run('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', shell=True, cwd=P, check=True)
    for f, old, new, *n in edits:
        p = os.path.join(P, f); s = open(p).read()
        c = s.count(old); want = n[0] if n else 1
        assert c == want, (id, f, c, old)
        open(p, 'w').write(s.replace(old, new))
    open(S + '/patch.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=P, capture_output=True, text=True).stdout)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=P)
    open(S + '/demo.rs', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(S + '/meta.json', 'w'), indent=1)
    if 'mod refs' in demo: subprocess.run(['cp', '/verif/replay/src/refs.rs', S + '/refs.rs'])
    subprocess.run(['cp', '/verif/tools/demo_template.sh', S + '/demo.sh'])
    r = subprocess.run(['bash', '/verif/tools/plant.sh', id], capture_output=True, text=True); print(r.stdout, r.stderr)
