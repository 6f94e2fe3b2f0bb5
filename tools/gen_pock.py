#!/usr/bin/env python3
"""Writes the Pocklington certificates of verus/pock.vu (run with python3-vt)."""
import os, random
from sympy import factorint
from math import isqrt
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
names, out = {}, []
L = lambda v: '0x%xint' % v if v >= 1 << 60 else '%dint' % v
def prove(n):
    if n in names: return names[n]
    nm = {P: 'lemma_prime_p256_field', N: 'lemma_prime_p256_order'}.get(n, 'lemma_prime_%d' % n)
    if n < 10**6:
        m = isqrt(n)
        out.append('pub proof fn %s() ensures prime(%dint)\n{ assert(nodiv(%d, 2, %dnat)) by (compute_only); assert((%dint + 2) * (%dint + 2) > %d) by (compute_only); lemma_trial(%d, %d); }' % (nm, n, n, m, m, m, n, n, m))
    else:
        F, qs = 1, []
        for q in sorted(factorint(n - 1), reverse=True):
            if F * F > n: break
            qs.append(q); F *= q
        cs, args = '', []
        for q in qs:
            k = prove(q)
            a = 2
            while True:
                x = pow(a, (n - 1) // q, n)
                if x > 1: break
                a += 1
            inv = pow(x - 1, -1, n)
            cs += ' %s(); assert(cert(%s, %s, %s, %s)) by (compute_only);' % (k, L(n), L(q), L(x), L(inv))
            args += [q, x, inv]
        out.append('pub proof fn %s() ensures prime(%s)\n{%s assert((%s) * (%s) > %s) by (compute_only); lemma_prime%d(%s, %s); }' % (nm, L(n), cs, ' * '.join(map(L, qs)), ' * '.join(map(L, qs)), L(n), len(qs), L(n), ', '.join(map(L, args))))
    names[n] = nm
    return nm
prove(P); prove(N)
p = os.path.join(R, 'verus', 'pock.vu')
s = open(p).read()
a = s.find('@@CERTS@@') if '@@CERTS@@' in s else s.index('// certificates (tools/gen_pock.py)')
s = s[:a] + '// certificates (tools/gen_pock.py)\n' + '\n'.join(out) + '\n}\n'
open(p, 'w').write(s)
