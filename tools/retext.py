#!/usr/bin/env python3
"""Re-records the bodies and digests of lib/verus_baseline.json (clean tree only)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import verus as v, unit as u
b = json.load(open(v.BASE))
b['_src'] = {}
u.expand()
for k in sorted(x for x in b if x != '_src'):
    t, sp, sk, st = u.build(k)
    assert not st, (k, st)
    v.record(b, k, sk, v.digests(t, sp))
json.dump(b, open(v.BASE, 'w'), indent=0, sort_keys=True)
