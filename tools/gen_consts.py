#!/usr/bin/env python3
"""Writes verus/consts_*.vu: constants of the standards, computed here from their
definitions (not copied from /repo)."""
import os
from math import isqrt
V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'verus')
def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out): out.append(k)
        k += 1
    return out
def icbrt(n):
    lo, hi = 0, 1 << ((n.bit_length() + 2) // 3 + 1)
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** 3 <= n: lo = m
        else: hi = m - 1
    return lo
def lit(name, xs, fmt, ty):
    """spec fn name() -> VSeq<ty> and the lemma-friendly accessor"""
    return 'pub open spec fn %s() -> VSeq<%s> { seq![%s] }\n' % (name, ty, ', '.join((fmt % x) + ty for x in xs))
K = [icbrt(p << 96) & 0xffffffff for p in primes(64)]
H = [isqrt(p << 64) & 0xffffffff for p in primes(8)]
assert K[0] == 0x428a2f98 and H[0] == 0x6a09e667
open(os.path.join(V, 'consts_sha256.vu'), 'w').write('// Generated by tools/gen_consts.py: fractional parts of the cube and square roots of the first primes.\nverus! {\n'
    + lit('k256', K, '0x%08x', 'u32') + lit('h256', H, '0x%08x', 'u32') + '}\n')

# BLAKE2b: RFC 7693 section 2.6 (square roots of the first primes, 64 bits) and the
# message schedule of section 2.7 (a published table, checked to consist of permutations)
IV = [isqrt(p << 128) & (2 ** 64 - 1) for p in primes(8)]
assert IV[0] == 0x6a09e667f3bcc908
SIG = """0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15  14 10 4 8 9 15 13 6 1 12 0 2 11 7 5 3
11 8 12 0 5 2 15 13 10 14 3 6 7 1 9 4  7 9 3 1 13 12 11 14 2 6 5 10 4 0 15 8
9 0 5 7 2 4 10 15 14 1 11 12 6 8 3 13  2 12 6 10 0 11 8 3 4 13 7 5 15 14 1 9
12 5 1 15 14 13 4 10 0 7 6 3 9 2 8 11  13 11 7 14 12 1 3 9 5 0 15 4 8 6 2 10
6 15 14 9 11 3 0 8 12 2 13 7 1 4 10 5  10 2 8 4 7 6 1 5 15 11 9 14 3 12 13 0"""
SIG = [int(v) for v in SIG.split()]
assert all(sorted(SIG[16 * i:16 * i + 16]) == list(range(16)) for i in range(10))
import hashlib
def b2(msg):
    M = 2 ** 64 - 1
    def G(v, a, b, c, d, x, y):
        rot = lambda w, n: (w >> n | w << (64 - n)) & M
        v[a] = (v[a] + v[b] + x) & M; v[d] = rot(v[d] ^ v[a], 32); v[c] = (v[c] + v[d]) & M; v[b] = rot(v[b] ^ v[c], 24)
        v[a] = (v[a] + v[b] + y) & M; v[d] = rot(v[d] ^ v[a], 16); v[c] = (v[c] + v[d]) & M; v[b] = rot(v[b] ^ v[c], 63)
    h = list(IV); h[0] ^= 0x01010040
    nb = max(1, (len(msg) + 127) // 128)
    for i in range(nb):
        blk = msg[128 * i:128 * i + 128].ljust(128, b'\0'); m = [int.from_bytes(blk[8 * j:8 * j + 8], 'little') for j in range(16)]
        t = min(128 * (i + 1), len(msg)); v = h + IV; v[12] ^= t & M; v[13] ^= t >> 64
        if i == nb - 1: v[14] ^= M
        for r in range(12):
            for k, (a, b, c, d) in enumerate([(0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14)]):
                G(v, a, b, c, d, m[SIG[16 * (r % 10) + 2 * k]], m[SIG[16 * (r % 10) + 2 * k + 1]])
        h = [h[j] ^ v[j] ^ v[j + 8] for j in range(8)]
    return b''.join(w.to_bytes(8, 'little') for w in h)
for n in (0, 1, 127, 128, 129, 256, 300):
    m = bytes((7 * i + n) & 255 for i in range(n)); assert b2(m) == hashlib.blake2b(m).digest()
open(os.path.join(V, 'consts_blake2.vu'), 'w').write('// Generated by tools/gen_consts.py; the RFC 7693 algorithm with these tables was compared with hashlib there.\nverus! {\n'
    + lit('b2iv', IV, '0x%016x', 'u64') + lit('b2sigma', SIG, '%d', 'usize') + '}\n')

# Keccak: FIPS 202 sections 3.2.2 (rho), 3.2.3 (pi), 3.2.5 (iota)
rho = [0] * 25
x, y = 1, 0
for t in range(24): rho[x + 5 * y] = (t + 1) * (t + 2) // 2 % 64; x, y = y, (2 * x + 3 * y) % 5
pi = [(x + 3 * y) % 5 + 5 * x for y in range(5) for x in range(5)]
def rc(t):
    R = [1, 0, 0, 0, 0, 0, 0, 0]
    for _ in range(t % 255):
        R = [0] + R
        for k in (0, 4, 5, 6): R[k] ^= R[8]
        R = R[:8]
    return R[0]
RC = [sum(rc(j + 7 * i) << (2 ** j - 1) for j in range(7)) for i in range(24)]
assert RC[1] == 0x8082
open(os.path.join(V, 'consts_keccak.vu'), 'w').write('// Generated by tools/gen_consts.py from the definitions in FIPS 202.\nverus! {\n'
    + lit('krc', RC, '0x%016x', 'u64') + lit('krho', rho, '%d', 'u32') + lit('kpi', pi, '%d', 'usize') + '}\n')

# AES: FIPS 197 sections 5.1.1 (inverse in GF(2^8), then the affine map) and 5.2 (round constants)
def gmul8(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0); b >>= 1
    return r
inv8 = [0] + [next(y for y in range(1, 256) if gmul8(v, y) == 1) for v in range(1, 256)]
SB = []
for v in inv8:
    SB.append(sum(((v >> i ^ v >> (i + 4) % 8 ^ v >> (i + 5) % 8 ^ v >> (i + 6) % 8 ^ v >> (i + 7) % 8 ^ 0x63 >> i) & 1) << i for i in range(8)))
assert SB[0] == 0x63 and SB[0x53] == 0xed
rcn, c = [], 0x8d            # 0x8d = x^-1
for i in range(15): rcn.append(c); c = gmul8(c, 2)
assert rcn[1] == 1 and rcn[10] == 0x36
open(os.path.join(V, 'consts_aes.vu'), 'w').write('// Generated by tools/gen_consts.py from the definitions in FIPS 197.\nverus! {\n'
    + lit('sbox_tab', SB, '0x%02x', 'u8') + lit('rcon_tab', rcn, '0x%02x', 'u8') + '}\n')
