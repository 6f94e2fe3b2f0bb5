#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.

1. Deductive part, on every run: the property's contracts are discharged by
   Kani (compiled code, full domain) and Verus (functions extracted from /repo on
   this run).
2. Replay part: the replay crate runs the real code on concrete inputs against
   independent references, for a few seconds alongside the proof, longer when an
   obligation was not discharged, to find the input that shows the failure.

Exit 0: no violation.  Exit 1 and a VIOLATION line:
  - a concrete input on which the real code breaks the property, or
  - an obligation that is discharged on the committed tree and definitely
    fails now, with no input found (line ends no-failing-input-found).
A proof attempt that does not get as far as a verdict (construct outside the
verifier's subset, lost anchor, changed function structure, time-out) is not a
verdict: the run is then reported in the evidence as exploration (bounded),
never as proof.
"""
import json, os, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import common as c, kani, replayer, config
from lib import verus

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = config.PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(c.ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(c.ROOT, 'replays'), exist_ok=True)
    problems, failures = [], []          # undecided reasons; definite failures
    cov = dict(obligations=0, discharged=0, checker_cmd='', trusted_base=[], back_ends=[], functions=[], bounded=[])
    assumptions = list(cfg.get('assume', []))

    # The deductive part (Kani, every Verus unit) and the build and first search
    # of the replay crate run side by side; each collects into its own lists.
    limit = t0 + (780 if tier == 'quick' else 14000)
    parts = []
    def start(f, *a):
        box = dict(cov=dict(obligations=0, discharged=0, checker_cmd='', trusted_base=[], back_ends=[], functions=[], bounded=[]), problems=[], failures=[], assumptions=[])
        th = threading.Thread(target=guard, args=(f, box) + a); th.start(); parts.append((th, box))
    def guard(f, box, *a):
        try: f(box, *a)
        except Exception: box['problems'].append('%s: %s' % (f.__name__, traceback.format_exc()[-1500:]))
    first = {}
    def first_search(box):
        ok, err = replayer.build()
        first['ok'] = ok
        if not ok: box['problems'].append('the replay crate does not build: ' + err[-1500:]); return
        secs = cfg.get('secs', 5) if tier == 'quick' else cfg.get('secs_thorough', 120)
        r = replayer.search(prop, seed, secs, cfg.get('min', 200))
        if 'error' in r: box['problems'].append(r['error'])
        else: first['search'] = r
    start(first_search)
    start(run_kani, prop, cfg, tier)
    for unit in cfg.get('verus', []): start(run_verus, unit, tier)
    for th, box in parts:
        th.join()
        problems += box['problems']; failures += box['failures']
        merge(cov, box['cov']); assumptions += [x for x in box['assumptions'] if x not in assumptions]
    searches = [first['search']] if 'search' in first else []
    violation = searches[0]['violation'] if searches else None
    if violation is None and (failures or problems) and first.get('ok'):
        # An obligation is not discharged: look harder for an input.
        secs = 45 if tier == 'quick' else 300
        r = replayer.search(prop, seed + 1000003, max(5, min(secs, limit - time.time() - 60)), 500)
        if 'error' not in r: searches.append(r); violation = r['violation']
    if violation is None:
        for f in failures[:2]:
            if 'harness' in f and limit - time.time() > 60: f['output'] = cex(f['harness'], min(250, limit - time.time()))

    cases = sum(s['cases'] for s in searches)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg['level'], coverage=cov, assumptions=assumptions)
    cov['search'] = dict(evaluations=cases, distinct_nontrivial=sum(s['distinct_nontrivial'] for s in searches),
                         rule='replay/: cases drawn from VERIF_SEED (edge values, boundary lengths, random), each run through the real code and compared with an independent reference; non-trivial unless the case marks itself trivial, distinct by description',
                         samples=[x for s in searches for x in s['samples']][:6])
    rc, line = 0, None
    if violation is not None:
        s = searches[-1]
        path = os.path.join(c.ROOT, 'replays', '%s-%d-%d.txt' % (prop, s['seed'], violation['index']))
        with open(path, 'w') as f:
            f.write('property %s\nreplay: %s --index %d\ninput: %s\nobserved: %s\npanic: %s\n' % (prop, s['cmd'], violation['index'], violation['input'], violation['what'], violation.get('panic', '')))
            for x in problems: f.write('\nobligation not discharged: %s\n' % x)
            for x in failures: f.write('\nfailed obligation: %s\n%s\n' % (x['obligation'], x.get('output', '')))
        for x in failures: print('failed obligation: %s' % x['obligation'])
        print('failing input: %s\nobserved: %s' % (violation['input'], violation['what']))
        line = 'VIOLATION property=%s replay=%s' % (prop, path); rc = 1
    elif failures:
        path = os.path.join(c.ROOT, 'replays', '%s-obligations.txt' % prop)
        with open(path, 'w') as f:
            for x in failures: f.write('failed obligation: %s\n%s\n\n' % (x['obligation'], x.get('output', '')))
        for x in failures: print('failed obligation: %s' % x['obligation'])
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path); rc = 1
    if problems:
        ev['level'] = 'exploration'
        cov['undecided'] = [p[:3000] for p in problems]
        cov.update(evaluations=cov['search']['evaluations'], distinct_nontrivial=cov['search']['distinct_nontrivial'],
                   rule=cov['search']['rule'], samples=cov['search']['samples'])
        for p in problems: print('undecided (not proved on this tree, bounded search only): ' + p[:1500])
    ev['violations'] = rc
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(os.path.join(c.ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    kf = os.path.join(c.ROOT, 'known_findings.txt')
    for l in open(kf) if os.path.exists(kf) else []:
        if l.startswith('finding: property=%s ' % prop): print('KNOWN-FINDING: ' + l[len('finding: '):].strip())
    print('%s: %d of %d obligations discharged, %d cases run, %.1f s%s' % (prop, cov['discharged'], cov['obligations'], cases, ev['wall_s'], ', UNDECIDED parts' if problems else ''))
    if line: print(line)
    if not searches and problems: sys.exit(2)      # nothing could be explored at all
    sys.exit(rc)

def merge(cov, c2):
    for k, v in c2.items():
        if isinstance(v, int): cov[k] += v
        elif isinstance(v, str): cov[k] += ('; ' if cov[k] and v else '') + v
        else: cov[k] += [x for x in v if x not in cov[k]]

def run_kani(box, prop, cfg, tier):
    cov, problems, failures = box['cov'], box['problems'], box['failures']
    fs = list(cfg.get('kani', [])) + (list(cfg.get('kani_thorough', [])) if tier == 'thorough' else [])
    if not fs: return
    want = config.kani_expected(fs)
    r = kani.run(want, exact=True, timeout=cfg.get('kani_timeout', 300) if tier == 'quick' else 1500, cap=560 if tier == 'quick' else 6000)
    hs = r['harnesses']
    cov['checker_cmd'] += ('; ' if cov['checker_cmd'] else '') + r['cmd'][:300]
    missing = [h for h in want if h not in hs]
    if missing: problems.append('Kani gave no result for %s: %s' % (missing[:5], r['out'][-2500:]))
    n = d = 0; st = 0.0
    for h in want:
        v = hs.get(h)
        if v is None: continue
        n += max(1, v['checks']); st += v['time']
        if v['status'] == 'ok':
            if v['covers'] and v['covers'][0] < v['covers'][1]: problems.append('vacuity guard: a cover of %s is not reachable' % h)
            elif v['checks'] == 0: problems.append('vacuity guard: %s generated no checks' % h)
            else: d += v['checks']
        elif v['status'] == 'failed':
            hard = [f for f in v['failed'] if 'unwinding' not in f and 'not currently supported' not in f]
            soft = [f for f in v['failed'] if f not in hard]
            if soft or not (hard or 'should_panic' in v.get('note', '') or 'panic' in v.get('note', '')):
                problems.append('Kani could not decide %s: %s %s' % (h, soft[:3], v.get('note')))
            else:
                failures.append(dict(obligation='Kani %s: %s %s' % (h, '; '.join(hard[:4]), v.get('note', '')), harness=h, output=''))
        else: problems.append('Kani %s: %s' % (h, v['status']))
    cov['obligations'] += n; cov['discharged'] += d
    cov['back_ends'].append(dict(name='Kani 0.68.0 / CBMC 6 (cadical, z3)', harnesses=len(want), ok=sum(1 for h in want if h in hs and hs[h]['status'] == 'ok'), checks=n, solver_s=round(st, 1), wall_s=round(r['wall'], 1)))
    cov['functions'] += ['%s' % h for h in want]
    for x in cfg.get('kani_bounded', []): cov['bounded'].append(x)
    cov['trusted_base'] += ['Kani/CBMC translation of MIR, CBMC and its SAT/SMT solvers', 'the postconditions written in /verif/kani/src/h']

def cex(h, secs):
    """Kani's counterexample for one harness."""
    rc, out, err, t = c.run(['cargo', 'kani', '--harness', h, '--exact', '-Z', 'concrete-playback', '--concrete-playback=print', '--harness-timeout', '%ds' % max(30, secs - 30), '-Z', 'unstable-options'], kani.DIR, secs)
    i = out.find('Concrete playback unit test')
    return out[i:i + 4000] if i >= 0 else out[-3000:]

def run_verus(box, unit, tier):
    cov = box['cov']
    r = verus.run(unit, tier)
    cov['checker_cmd'] += r['cmd']
    cov['obligations'] += r['obligations']; cov['discharged'] += r['discharged']
    cov['functions'] += r['functions']
    cov['trusted_base'] += r['trusted']
    cov['back_ends'].append(dict(name='Verus 0.2026.09.13 / Z3', unit=unit, functions_verified=r['obligations'], discharged=r['discharged'], solver_s=r['solver_s'], wall_s=r['wall']))
    box['assumptions'] += r.get('dropped', [])
    box['problems'] += r['problems']; box['failures'] += r['failures']

if __name__ == '__main__': main()
