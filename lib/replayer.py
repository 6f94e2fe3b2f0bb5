"""Builds and runs the replay crate: the real code on concrete inputs."""
import json, os
from . import common as c
DIR = os.path.join(c.ROOT, 'replay')
BIN = os.path.join(DIR, 'target', 'debug', 'replay')

def build():
    c.freshen(os.path.join(DIR, 'target'))
    rc, out, err, t = c.run(['cargo', 'build', '--offline'], DIR, 800)
    return rc == 0, err

def search(prop, seed, secs, minimum=200):
    """dict with cases, samples, violation|None; or {'error': ..}"""
    lits = ','.join(map(str, c.new_literals()))
    rc, out, err, t = c.run([BIN, prop, '--seed', str(seed), '--secs', str(secs), '--min', str(minimum)], DIR, secs + 400, {'VERIF_LITS': lits})
    lines = [l for l in out.splitlines() if l.startswith('{')]
    if not lines: return {'error': 'replay gave no result (rc %s): %s' % (rc, err[-2000:])}
    r = json.loads(lines[-1])
    r['cmd'] = 'cd /verif/replay && cargo build && ' + ('VERIF_LITS=%s ' % lits if lits else '') + './target/debug/replay %s --seed %d' % (prop, seed)
    return r
