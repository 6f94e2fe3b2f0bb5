#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/config.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from lib import config
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {
 'N01': 'A statement about all programs that can be written against an interface: a type-system (API surface) fact, with no function whose contract could state it; secret independence of the compiled code is a hyperproperty that neither Verus nor Kani contracts express.',
 'N02': 'The values come from the rand crate and the operating system; unpredictability is probabilistic and no contract on the code in /repo can state it.',
 'N03': 'The code is a call of serde_json on a file read through std::fs: a contract would have to assume the whole behaviour of serde, which is all the property says.',
}
TECH = {'k': 'Kani proof harnesses with full-domain contracts on the compiled functions', 'v': 'Verus contracts on functions extracted mechanically from /repo on every run'}
checks = []
for i in ids:
    if i not in config.PROPS: continue
    p = config.PROPS[i]
    t = [TECH[k] for k, f in (('v', 'verus'), ('k', 'kani')) if p.get(f)]
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                       technique='contract-based deductive verification: ' + '; '.join(t) + '; replay search for failing inputs', level=p['level'], level_note=p.get('note', '') or config.NOTE))
na = [dict(property=i, reason=NA.get(i, config.TODO.get(i, 'contracts for this property are not finished yet'))) for i in ids if i not in config.PROPS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
