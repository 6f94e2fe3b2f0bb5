"""Runs Kani harnesses of /verif/kani and parses the outcome of each."""
import os, re, subprocess, sys, time
if __name__ == '__main__': sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import common as c
DIR = os.path.join(c.ROOT, 'kani')

def parse(text):
    """{harness: {'status': ok|failed|timeout|error, 'time': s, 'checks': n, 'failed': [..], 'covers': (sat, total)}}"""
    res, cur, th = {}, {}, None
    names = {}
    for line in text.splitlines():
        m = re.match(r'(?:Thread (\d+): )?\s*Checking harness (\S+?)\.\.\.', line)
        if m:
            names[m.group(1)] = m.group(2)
            res[m.group(2)] = dict(status='error', time=0.0, checks=0, failed=[], covers=None)
            if m.group(1) is None: th = None
            continue
        m = re.match(r'Thread (\d+):\s*$', line)
        if m: th = m.group(1); continue
        h = names.get(th)
        if h is None: continue
        r = res[h]
        m = re.match(r'\s*\*\* (\d+) of (\d+) failed', line)
        if m: r['checks'] = int(m.group(2)); continue
        m = re.match(r'\s*\*\* (\d+) of (\d+) cover properties satisfied', line)
        if m: r['covers'] = (int(m.group(1)), int(m.group(2))); continue
        m = re.match(r'Failed Checks: (.*)', line)
        if m: r['failed'].append(m.group(1)); continue
        m = re.match(r' File: "([^"]*)", line (\d+), in (\S+)', line)
        if m and r['failed']: r['failed'][-1] += ' [%s:%s]' % (m.group(1), m.group(2)); continue
        if line.startswith('CBMC timed out'): r['status'] = 'timeout'; continue
        if line.startswith('CBMC failed'): r['cbmc'] = True; continue
        m = re.match(r'VERIFICATION:- (\w+)(.*)', line)
        if m:
            r['status'] = 'ok' if m.group(1) == 'SUCCESSFUL' else ('error' if r.get('cbmc') else 'failed')
            r['note'] = m.group(2).strip(' ()')
            continue
        m = re.match(r'Verification Time: ([\d.]+)s', line)
        if m: r['time'] = float(m.group(1)); continue
    return res

# Private functions of /repo, copied text for text into a file the Kani crate
# includes; (module, source file, functions, harnesses)
EXTRACTED = [('hkdf_div_ceil', 'spec-examples/src/hkdf/hkdf.rs', ['div_ceil'], '''
#[kani::proof] fn c03_div_ceil_exact() { let a: usize = kani::any(); kani::assume(a <= 255 * 32); assert!(div_ceil(a, 32) == ((a + 31) / 32) as u64); }
#[kani::proof] fn c03_div_ceil_large() { let a: usize = kani::any(); kani::assume(a > 255 * 32); assert!(div_ceil(a, 32) > 255); }
''')]
def extract():
    from lib import extract as x
    out = []
    for mod, path, fns, h in EXTRACTED:
        try:
            src = x.Source(open(os.path.join(c.REPO, path)).read())
            t = ''
            for f in fns:
                it = src.find(f)
                t += ' '.join(it.head) + ' { ' + ' '.join(it.body) + ' }\n'
            out.append('pub mod %s {\n%s%s}\n' % (mod, t, h))
        except (x.Lost, OSError, IndexError): pass          # the harness is then missing, hence undecided
    p = os.path.join(c.BUILD, 'kani_extracted.rs')
    os.makedirs(c.BUILD, exist_ok=True)
    t = ''.join(out)
    if not os.path.exists(p) or open(p).read() != t: open(p, 'w').write(t)

def run(filters, timeout=120, jobs=8, extra=(), exact=False, cap=800):
    c.freshen(os.path.join(DIR, 'target'), own=c.kani_sources())
    extract()
    cmd = ['cargo', 'kani', '-j', str(jobs), '--output-format', 'terse', '--harness-timeout', '%ds' % timeout, '-Z', 'unstable-options']
    for f in filters: cmd += ['--harness', f]
    if exact: cmd.append('--exact')
    cmd += list(extra)
    rc, out, err, t = c.run(cmd, DIR, cap)
    hs = parse(out)
    return dict(cmd=' '.join(cmd), out=out + '\n' + err, rc=rc, wall=t, harnesses=hs)

if __name__ == '__main__':
    import sys
    r = run(sys.argv[2:], timeout=int(sys.argv[1]))
    hs = sorted(r['harnesses'].items(), key=lambda x: -x[1]['time'])
    for h, v in hs:
        if v['time'] > 5 or v['status'] != 'ok': print('%7.1f %-8s %s %s' % (v['time'], v['status'], h, v['failed'][:3]))
    print(len(hs), 'harnesses', sum(v['status'] == 'ok' for _, v in hs), 'ok', 'wall %.1f' % r['wall'], 'bad covers', [h for h, v in hs if v['covers'] and v['covers'][0] < v['covers'][1]])
    if r['rc'] and not hs: print(r['out'][-3000:])
