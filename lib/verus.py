"""Builds a Verus unit from /repo's current sources, runs Verus, classifies the outcome."""
import difflib, hashlib, json, os, re, sys, threading, time
if __name__ == '__main__': sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import common as c, extract as x, unit as u
OUT = os.path.join(c.BUILD, 'verus')
BASE = os.path.join(c.ROOT, 'lib', 'verus_baseline.json')
LOCK = threading.Lock()          # units share the macro expansion and its output files
DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied', 'possible arithmetic underflow/overflow',
            'possible division by zero', 'unable to prove', 'requires not satisfied', 'possible bit shift', 'assertion failure', 'recommendation not met', 'loop invariant not', 'might not')

def parse_errors(err):
    """[(message, [lines])] of the error blocks of rustc style output"""
    out = []
    for blk in re.split(r'\n(?=error|warning|note)', '\n' + err):
        blk = blk.strip('\n')
        if not blk.startswith('error'): continue
        msg = blk.split('\n')[0]
        if msg.startswith('error: aborting'): continue
        ls = [int(m) for m in re.findall(r'-->\s*\S+?:(\d+):\d+', blk)] + [int(m) for m in re.findall(r'^\s*(\d+)\s*\|', blk, re.M)]
        out.append((msg, ls, blk))
    return out

def unchanged(a, b, src):
    """Does a proof written for skeleton a still address a function of skeleton b?
    The loops must be the same, every local the annotations may name must exist, and
    the edit must leave most of the body as it was: a body written anew may need
    another argument although it computes the same."""
    if a is None or b is None: return a is None and b is None
    if b.get('inlined'): return False
    if a['loops'] != b['loops'] or any(a['lets'].count(x) > b['lets'].count(x) for x in set(a['lets'])): return False
    old, new = src.get(a.get('src'), '').split(), b['toks'].split()
    same = sum(m.size for m in difflib.SequenceMatcher(None, old, new, False).get_matching_blocks())
    return same >= 0.75 * len(old)

_kn = []
def _known():
    """every name a recorded body mentions"""
    if not _kn:
        b = json.load(open(BASE)) if os.path.exists(BASE) else {}
        _kn.append({t for v in b.get('_src', {}).values() for t in v.split()})
    return _kn[0]

def run(unit, tier, extra=()):
    """One unit. A function the extraction or Verus cannot process on this tree is
    replaced by its contract and reported as a problem (undecided); everything else
    in the unit is still decided against that contract."""
    t0 = time.time()
    limit = 560 if tier == 'quick' else 3000
    skip, first = {}, []
    while True:
        r, bad = run1(unit, tier, extra, tuple(skip), limit - (time.time() - t0))
        r['problems'] = first + r['problems']
        bad = {k: m for k, m in bad.items() if k not in skip}
        if not bad or len(skip) > 6 or time.time() - t0 > limit / 3: break
        skip.update(bad)
        first = ['Verus unit %s, %s: %s' % (unit, k, m) for k, m in skip.items()]
    keys = {f['key'] for f in r['failures']}
    if keys and time.time() - t0 < limit / 3:
        # once more, loops seeing the facts of their surroundings: local definitions may have moved
        q, bad = run1(unit, tier, extra, tuple(skip), min(limit - (time.time() - t0), 30 + 2 * (time.time() - t0)), tuple(keys))
        if not bad and q['obligations'] and {f['key'] for f in q['failures']} < keys: q['problems'] = first + q['problems']; r = q
    r['wall'] = round(time.time() - t0, 1)
    return r

def run1(unit, tier, extra, skip, secs, flat=()):
    t0 = time.time()
    r = dict(obligations=0, discharged=0, functions=[], trusted=[], problems=[], failures=[], solver_s=0.0, wall=0.0, cmd='verus build/verus/%s.rs (generated from /repo by lib/unit.py)' % unit, dropped=[])
    try:
        with LOCK:
            u.expand()
            known = _known()
            text, spans, skel, stubs = u.build(unit, skip=skip, known=known, flat=flat)
    except x.Lost as e:
        r['problems'].append('Verus unit %s: %s' % (unit, e)); return r, {}
    except (IndexError, KeyError, ValueError) as e:
        r['problems'].append('Verus unit %s: extraction failed: %r' % (unit, e)); return r, {}
    r['problems'] += ['Verus unit %s, %s: %s' % (unit, k, m) for k, m in stubs.items() if k not in skip]
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, unit + '.rs')
    open(path, 'w').write(text)
    rlimit = '60' if tier == 'quick' else '300'
    rc, out, err, t = c.run(['verus', path, '--output-json', '--time', '--rlimit', rlimit, '--multiple-errors', '5', '--num-threads', '8', *extra], OUT, secs)
    bases = json.load(open(BASE)) if os.path.exists(BASE) else {}
    base = bases.get(unit)
    r['functions'] = ['Verus: ' + k for k in skel if k not in stubs]
    r['trusted'] = trusted(text)
    if rc is None: r['problems'].append('Verus unit %s: time-out' % unit); return r, {}
    try: js = json.loads(out[out.index('{'):])
    except ValueError: r['problems'].append('Verus unit %s: no result: %s' % (unit, (err or out)[-2500:])); return r, {}
    vr = js.get('verification-results', {})
    ver, errs = vr.get('verified', 0), vr.get('errors', 0)
    r['solver_s'] = round(js.get('times-ms', {}).get('smt', {}).get('total', 0) / 1000.0, 1) if isinstance(js.get('times-ms', {}).get('smt'), dict) else 0.0
    r['obligations'], r['discharged'] = ver + errs, ver
    if rc == 0 and vr.get('success'):
        if base and ver < base['verified'] and not stubs: r['problems'].append('vacuity guard: unit %s has %d verified functions, %d expected' % (unit, ver, base['verified']))
        if ver == 0: r['problems'].append('vacuity guard: nothing verified in ' + unit)
        r['skel'] = skel; r['verified'] = ver; r['text'] = digests(text, spans)
        return r, {}
    es = parse_errors(err)
    r['errors'] = es
    def owner(ls):
        for l in ls:
            for a, b, k in spans:
                if a <= l <= b: return k
        return None
    bad, dg, bt = {}, digests(text, spans), (base or {}).get('text')
    for msg, ls, blk in es:
        k = owner(ls)
        definite = any(d in msg for d in DEFINITE) and 'rlimit' not in msg and 'Resource limit' not in blk
        same = bool(base) and k is not None and unchanged(base['skel'].get(k), skel.get(k), bases.get('_src', {}))
        if not definite:
            r['problems'].append('Verus unit %s, %s: %s' % (unit, k, blk[:700]))
            if ver + errs == 0 and k in skel: bad.setdefault(k, blk[:700])      # not even translated
        elif k is not None and bt and bt.get('') == dg[''] and bt.get(k) == dg[k]:
            # neither the function nor any constant or type changed, and callees are
            # seen through the same contracts: the verifier, not the code, is the cause
            r['problems'].append('Verus unit %s: obligation of %s, whose text is unchanged, not discharged on this tree: %s' % (unit, k, blk[:300]))
        elif not same: r['problems'].append('Verus unit %s: obligation of %s not discharged, but the function (or, for a proof, its surroundings) no longer has the structure the proof was written for: %s' % (unit, k, blk[:700]))
        else: r['failures'].append(dict(key=k, obligation='Verus %s, %s: %s' % (unit, k, msg), output=blk[:3000]))
    if not es: r['problems'].append('Verus unit %s failed: %s' % (unit, err[-1500:]))
    return r, bad

def digests(text, spans):
    """of every extracted item, and ('') of all the rest: contracts, constants, types"""
    ls = text.split('\n')
    h = lambda l: hashlib.sha256('\n'.join(l).encode()).hexdigest()[:16]
    r, rest, at = {}, [], 0
    for a, b, k in spans:
        if ' const ' in k: continue
        r[k] = h(ls[a - 1:b]); rest += ls[at:a - 1]; at = b
    r[''] = h(rest + ls[at:])
    return r

def record(b, unit, skel, text, verified=None):
    """baseline of one unit; bodies are kept once, by digest"""
    sk = {}
    for k, v in skel.items():
        v = dict(v); t = v.pop('toks', None)
        if t is not None:
            v['src'] = hashlib.sha256(t.encode()).hexdigest()[:16]
            b.setdefault('_src', {})[v['src']] = t
        sk[k] = v
    b[unit] = dict(verified=verified if verified is not None else b[unit]['verified'], skel=sk, text=text)

def trusted(text):
    """every assumption a unit makes, found by scanning its text"""
    out = []
    ls = text.split('\n')
    for i, l in enumerate(ls):
        if re.search(r'external_body|\bassume\s*\(|\badmit\s*\(|\baxiom\b|assume_specification|external_fn_specification|external_type_specification|\bexternal\b', l) and not l.strip().startswith('//'):
            j = i
            while j < len(ls) and not re.search(r'\b(fn|struct|trait|assume_specification)\b', ls[j]): j += 1
            d = ls[j].strip() if j < len(ls) else l.strip()
            out.append(('assumed: ' + d)[:160])
    return sorted(set(out)) + ['Verus, its vstd specifications, and Z3']

if __name__ == '__main__':
    tier = 'quick'
    for unit in [a for a in sys.argv[1:] if not a.startswith('-')]:
        r = run(unit, tier, extra=[])
        if '--record' in sys.argv and not r['problems'] and not r['failures']:
            b = json.load(open(BASE)) if os.path.exists(BASE) else {}
            record(b, unit, r['skel'], r['text'], r['verified'])
            json.dump(b, open(BASE, 'w'), indent=0, sort_keys=True)
        for m, ls, blk in r.get('errors', []): print(blk); print()
        for p in r['problems']:
            if not r.get('errors'): print(p)
        print(unit, 'obligations', r['obligations'], 'discharged', r['discharged'], 'functions', len(r['functions']), 'wall', r['wall'], 'smt', r['solver_s'])
