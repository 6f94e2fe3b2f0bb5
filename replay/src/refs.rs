//! Independent reference implementations, written from the standards over
//! plain bytes, machine words and big integers.
use num::{BigUint, Integer as _, One, Zero};

// ---------- FIPS 180-4 ----------
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2u64;
    while v.len() < n { if v.iter().all(|p| c % p != 0) { v.push(c); } c += 1; }
    v
}
/// floor(2^bits * frac(p^(1/root)))
fn frac_root(p: u64, root: u32, bits: usize) -> u64 {
    // integer k-th root of p * 2^(root*bits)
    let t = BigUint::from(p) << (root as usize * bits);
    let (mut lo, mut hi) = (BigUint::zero(), BigUint::one() << (bits + 16));
    while &lo + 1u32 < hi {
        let mid = (&lo + &hi) >> 1;
        if mid.pow(root) <= t { lo = mid } else { hi = mid }
    }
    let m = (BigUint::one() << bits) - 1u32;
    let r = lo & m;
    r.to_bytes_le().iter().rev().fold(0u64, |a, b| (a << 8) | *b as u64)
}
trait PowB { fn pow(&self, e: u32) -> BigUint; }
impl PowB for BigUint { fn pow(&self, e: u32) -> BigUint { (0..e).fold(BigUint::one(), |a, _| a * self) } }

pub fn sha256(msg: &[u8]) -> [u8; 32] {
    use std::sync::Once;
    static INIT: Once = Once::new();
    static mut K: [u32; 64] = [0; 64];
    static mut H0: [u32; 8] = [0; 8];
    INIT.call_once(|| {
        let p = primes(64);
        for i in 0..64 { unsafe { K[i] = frac_root(p[i], 3, 32) as u32 } }
        for i in 0..8 { unsafe { H0[i] = frac_root(p[i], 2, 32) as u32 } }
    });
    let (k, mut h) = unsafe { (K, H0) };
    let mut m = msg.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 { m.push(0); }
    m.extend_from_slice(&((msg.len() as u64) * 8).to_be_bytes());
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 { w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]); }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    let mut o = [0u8; 32];
    for i in 0..8 { o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes()); }
    o
}
// ---------- RFC 2104 / RFC 5869 ----------
pub fn hmac(key: &[u8], msg: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut i: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    i.extend_from_slice(msg);
    let mut o: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    o.extend_from_slice(&sha256(&i));
    sha256(&o)
}
pub fn hkdf_extract(salt: &[u8], ikm: &[u8]) -> [u8; 32] {
    if salt.is_empty() { hmac(&[0; 32], ikm) } else { hmac(salt, ikm) }
}
pub fn hkdf_expand(prk: &[u8], info: &[u8], l: usize) -> Vec<u8> {
    let mut t: Vec<u8> = vec![];
    let mut okm: Vec<u8> = vec![];
    let mut i = 1u16;
    while okm.len() < l {
        let mut m = t.clone();
        m.extend_from_slice(info);
        m.push(i as u8);
        t = hmac(prk, &m).to_vec();
        okm.extend_from_slice(&t);
        i += 1;
    }
    okm.truncate(l);
    okm
}
// ---------- RFC 8439 ----------
pub fn chacha_block(key: &[u8], ctr: u32, nonce: &[u8]) -> Vec<u8> {
    let le = |b: &[u8]| u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
    let mut s = [0u32; 16];
    for (i, c) in b"expand 32-byte k".chunks(4).enumerate() { s[i] = le(c); }
    for i in 0..8 { s[4 + i] = le(&key[4 * i..]); }
    s[12] = ctr;
    for i in 0..3 { s[13 + i] = le(&nonce[4 * i..]); }
    let mut x = s;
    fn qr(x: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        x[a] = x[a].wrapping_add(x[b]); x[d] = (x[d] ^ x[a]).rotate_left(16);
        x[c] = x[c].wrapping_add(x[d]); x[b] = (x[b] ^ x[c]).rotate_left(12);
        x[a] = x[a].wrapping_add(x[b]); x[d] = (x[d] ^ x[a]).rotate_left(8);
        x[c] = x[c].wrapping_add(x[d]); x[b] = (x[b] ^ x[c]).rotate_left(7);
    }
    for _ in 0..10 {
        for i in 0..4 { qr(&mut x, i, i + 4, i + 8, i + 12); }
        for i in 0..4 { qr(&mut x, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
    }
    let mut o = vec![];
    for i in 0..16 { o.extend_from_slice(&x[i].wrapping_add(s[i]).to_le_bytes()); }
    o
}
pub fn chacha20(key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
    m.iter().enumerate().scan((0u32, vec![]), |st, (i, b)| {
        if i % 64 == 0 { st.1 = chacha_block(key, ctr.wrapping_add((i / 64) as u32), nonce); }
        Some(b ^ st.1[i % 64])
    }).collect()
}
pub fn poly1305(key: &[u8], m: &[u8]) -> Vec<u8> {
    let p = (BigUint::one() << 130) - 5u32;
    let mut r = key[..16].to_vec();
    for i in &[3, 7, 11, 15] { r[*i] &= 15; }
    for i in &[4, 8, 12] { r[*i] &= 252; }
    let r = BigUint::from_bytes_le(&r);
    let s = BigUint::from_bytes_le(&key[16..32]);
    let mut a = BigUint::zero();
    for c in m.chunks(16) {
        let mut v = c.to_vec();
        v.push(1);
        a = (a + BigUint::from_bytes_le(&v)) * &r % &p;
    }
    let t = (a + s) % (BigUint::one() << 128);
    let mut o = t.to_bytes_le();
    o.resize(16, 0);
    o
}
fn pad16(v: &mut Vec<u8>) { while v.len() % 16 != 0 { v.push(0); } }
pub fn chachapoly_tag(key: &[u8], nonce: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let otk = chacha_block(key, 0, nonce);
    let mut d = aad.to_vec();
    pad16(&mut d);
    d.extend_from_slice(ct);
    pad16(&mut d);
    d.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    d.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&otk[..32], &d)
}
// ---------- FIPS 197 ----------
fn gmul8(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 { r ^= a }
        let h = a & 0x80;
        a <<= 1;
        if h != 0 { a ^= 0x1b }
        b >>= 1;
    }
    r
}
fn sbox(x: u8) -> u8 {
    let mut inv = 0u8;
    if x != 0 { for c in 1..=255u8 { if gmul8(x, c) == 1 { inv = c; break; } } }
    let mut r = 0x63;
    for i in 0..5 { r ^= inv.rotate_left(i); }
    r
}
fn sbox_table() -> &'static [u8; 256] {
    use std::sync::Once;
    static INIT: Once = Once::new();
    static mut T: [u8; 256] = [0; 256];
    INIT.call_once(|| for i in 0..256 { unsafe { T[i] = sbox(i as u8) } });
    #[allow(static_mut_refs)]
    unsafe { &*std::ptr::addr_of!(T) }
}
pub fn aes(key: &[u8], block: &[u8]) -> [u8; 16] {
    let sb = sbox_table();
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
    let mut rcon = 1u8;
    for i in nk..4 * (nr + 1) {
        let mut t = w[i - 1];
        if i % nk == 0 {
            t = [sb[t[1] as usize] ^ rcon, sb[t[2] as usize], sb[t[3] as usize], sb[t[0] as usize]];
            rcon = gmul8(rcon, 2);
        } else if nk > 6 && i % nk == 4 {
            for b in t.iter_mut() { *b = sb[*b as usize]; }
        }
        for j in 0..4 { t[j] ^= w[i - nk][j]; }
        w.push(t);
    }
    let mut s = [0u8; 16];
    s.copy_from_slice(block);
    let ark = |s: &mut [u8; 16], r: usize| for i in 0..16 { s[i] ^= w[4 * r + i / 4][i % 4]; };
    ark(&mut s, 0);
    for r in 1..=nr {
        for b in s.iter_mut() { *b = sb[*b as usize]; }
        let o = s;
        for c in 0..4 { for row in 0..4 { s[4 * c + row] = o[4 * ((c + row) % 4) + row]; } }
        if r != nr {
            for c in 0..4 {
                let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                for row in 0..4 {
                    s[4 * c + row] = gmul8(a[row], 2) ^ gmul8(a[(row + 1) % 4], 3) ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                }
            }
        }
        ark(&mut s, r);
    }
    s
}
pub fn aes_ctr(key: &[u8], nonce: &[u8], ctr: u32, m: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    for (i, c) in m.chunks(16).enumerate() {
        let mut b = nonce.to_vec();
        b.extend_from_slice(&ctr.wrapping_add(i as u32).to_be_bytes());
        let k = aes(key, &b);
        out.extend(c.iter().zip(k.iter()).map(|(a, b)| a ^ b));
    }
    out
}
// ---------- SP 800-38D ----------
fn gf128(x: u128, y: u128) -> u128 {
    // bit 0 of the standard is the most significant bit
    let mut z = 0u128;
    let mut v = y;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 { z ^= v; }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 { v ^= 0xe1u128 << 120; }
    }
    z
}
pub fn ghash(h: &[u8], m: &[u8]) -> [u8; 16] {
    let be = |b: &[u8]| b.iter().fold(0u128, |a, x| (a << 8) | *x as u128);
    let hk = be(h);
    let mut y = 0u128;
    for c in m.chunks(16) {
        let mut b = c.to_vec();
        b.resize(16, 0);
        y = gf128(y ^ be(&b), hk);
    }
    y.to_be_bytes()
}
pub fn gcm(key: &[u8], nonce: &[u8], aad: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let c = aes_ctr(key, nonce, 2, m);
    let t = gcm_tag(key, nonce, aad, &c);
    (c, t)
}
pub fn gcm_tag(key: &[u8], nonce: &[u8], aad: &[u8], c: &[u8]) -> Vec<u8> {
    let h = aes(key, &[0; 16]);
    let mut d = aad.to_vec();
    pad16(&mut d);
    d.extend_from_slice(&c);
    pad16(&mut d);
    d.extend_from_slice(&(aad.len() as u64 * 8).to_be_bytes());
    d.extend_from_slice(&(c.len() as u64 * 8).to_be_bytes());
    let s = ghash(&h, &d);
    aes_ctr(key, nonce, 1, &s)
}
// ---------- FIPS 202 ----------
pub fn keccakf(a: &mut [u64; 25]) {
    let mut lfsr = 1u8;
    for _ in 0..24 {
        let mut c = [0u64; 5];
        for x in 0..5 { for y in 0..5 { c[x] ^= a[x + 5 * y]; } }
        for x in 0..5 { let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1); for y in 0..5 { a[x + 5 * y] ^= d; } }
        // rho and pi
        let mut b = [0u64; 25];
        b[0] = a[0];
        let (mut x, mut y) = (1usize, 0usize);
        let mut off = vec![0u32; 25];
        for t in 0..24u32 { off[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; let ny = (2 * x + 3 * y) % 5; x = y; y = ny; }
        for x in 0..5 { for y in 0..5 { b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(off[x + 5 * y]); } }
        for x in 0..5 { for y in 0..5 { a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]); } }
        for j in 0..7 {
            let bit = lfsr & 1;
            lfsr = (lfsr << 1) ^ (if lfsr & 0x80 != 0 { 0x71 } else { 0 });
            if bit == 1 { a[0] ^= 1u64 << ((1u32 << j) - 1); }
        }
    }
}
pub fn keccak(rate: usize, m: &[u8], suffix: u8, outlen: usize) -> Vec<u8> {
    let mut p = m.to_vec();
    p.push(suffix);
    while p.len() % rate != 0 { p.push(0); }
    *p.last_mut().unwrap() |= 0x80;
    let mut a = [0u64; 25];
    for b in p.chunks(rate) {
        for (i, x) in b.iter().enumerate() { a[i / 8] ^= (*x as u64) << (8 * (i % 8)); }
        keccakf(&mut a);
    }
    let mut out = vec![];
    while out.len() < outlen {
        for i in 0..rate { out.push((a[i / 8] >> (8 * (i % 8))) as u8); }
        keccakf(&mut a);
    }
    out.truncate(outlen);
    out
}
// ---------- RFC 7693 ----------
pub fn blake2b(m: &[u8]) -> Vec<u8> {
    let p = primes(8);
    let iv: Vec<u64> = (0..8).map(|i| frac_root(p[i], 2, 64)).collect();
    const SG: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]];
    let mut h = iv.clone();
    h[0] ^= 0x01010000 ^ 64;
    let nb = if m.is_empty() { 1 } else { (m.len() + 127) / 128 };
    for i in 0..nb {
        let last = i + 1 == nb;
        let mut b = m[128 * i..m.len().min(128 * i + 128)].to_vec();
        let t = if last { m.len() as u128 } else { 128 * (i as u128 + 1) };
        b.resize(128, 0);
        let w: Vec<u64> = b.chunks(8).map(|c| c.iter().rev().fold(0u64, |a, x| (a << 8) | *x as u64)).collect();
        let mut v: Vec<u64> = h.iter().chain(iv.iter()).cloned().collect();
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if last { v[14] = !v[14]; }
        for r in 0..12 {
            let s = &SG[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x); v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y); v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]); v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            for k in 0..4 { g(k, k + 4, k + 8, k + 12, w[s[2 * k]], w[s[2 * k + 1]]); }
            for k in 0..4 { g(k, 4 + (k + 1) % 4, 8 + (k + 2) % 4, 12 + (k + 3) % 4, w[s[8 + 2 * k]], w[s[8 + 2 * k + 1]]); }
        }
        for k in 0..8 { h[k] ^= v[k] ^ v[k + 8]; }
    }
    h.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect()
}
// ---------- RFC 7748 ----------
pub fn x25519(k: &[u8], u: &[u8]) -> Vec<u8> {
    let p = (BigUint::one() << 255) - 19u32;
    let mut kk = k.to_vec();
    kk[0] &= 248; kk[31] &= 127; kk[31] |= 64;
    let k = BigUint::from_bytes_le(&kk);
    let mut uu = u.to_vec();
    uu[31] &= 127;
    let x1 = BigUint::from_bytes_le(&uu) % &p;
    let add = |a: &BigUint, b: &BigUint| (a + b) % &p;
    let sub = |a: &BigUint, b: &BigUint| (a + &p - b) % &p;
    let mul = |a: &BigUint, b: &BigUint| (a * b) % &p;
    let (mut x2, mut z2, mut x3, mut z3) = (BigUint::one(), BigUint::zero(), x1.clone(), BigUint::one());
    let mut swap = false;
    for t in (0..255usize).rev() {
        let kt = ((&k >> t) & BigUint::one()).is_one();
        if swap != kt { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
        swap = kt;
        let a = add(&x2, &z2);
        let aa = mul(&a, &a);
        let b = sub(&x2, &z2);
        let bb = mul(&b, &b);
        let e = sub(&aa, &bb);
        let c = add(&x3, &z3);
        let d = sub(&x3, &z3);
        let da = mul(&d, &a);
        let cb = mul(&c, &b);
        let s = add(&da, &cb);
        x3 = mul(&s, &s);
        let s = sub(&da, &cb);
        z3 = mul(&x1, &mul(&s, &s));
        x2 = mul(&aa, &bb);
        z2 = mul(&e, &add(&aa, &mul(&BigUint::from(121665u32), &e)));
    }
    if swap { std::mem::swap(&mut x2, &mut x3); std::mem::swap(&mut z2, &mut z3); }
    let r = mul(&x2, &z2.modpow(&(&p - 2u32), &p));
    let mut o = r.to_bytes_le();
    o.resize(32, 0);
    o
}
// ---------- P-256 ----------
pub type Pt = Option<(BigUint, BigUint)>;
pub fn p256_prime() -> BigUint { BigUint::parse_bytes(b"ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", 16).unwrap() }
pub fn p256_order() -> BigUint { BigUint::parse_bytes(b"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551", 16).unwrap() }
pub fn inv_mod(a: &BigUint, p: &BigUint) -> BigUint {
    // extended Euclid over signed pairs
    let (mut r0, mut r1) = (p.clone(), a % p);
    let (mut t0, mut t1) = (BigUint::zero(), BigUint::one());
    while !r1.is_zero() {
        let (q, r) = r0.div_rem(&r1);
        let t = (&t0 + p * &q - (&q * &t1) % p + p) % p;
        let t = { let qt = (&q * &t1) % p; let _ = t; (&t0 + p - qt) % p };
        t0 = t1; t1 = t; r0 = r1; r1 = r;
    }
    t0
}
pub fn p256_add(a: &Pt, b: &Pt) -> Pt {
    let p = p256_prime();
    match (a, b) {
        (None, _) => b.clone(),
        (_, None) => a.clone(),
        (Some((x1, y1)), Some((x2, y2))) => {
            let l = if x1 == x2 {
                if (y1 + y2) % &p == BigUint::zero() { return None; }
                let num = (x1 * x1 * 3u32 + &p - 3u32) % &p;
                num * inv_mod(&((y1 * 2u32) % &p), &p) % &p
            } else {
                ((y2 + &p - y1) % &p) * inv_mod(&((x2 + &p - x1) % &p), &p) % &p
            };
            let x3 = (&l * &l + &p + &p - x1 - x2) % &p;
            let y3 = (l * ((x1 + &p - &x3) % &p) + &p - y1) % &p;
            Some((x3, y3))
        }
    }
}
pub fn p256_base() -> Pt {
    Some((BigUint::parse_bytes(b"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", 16).unwrap(),
          BigUint::parse_bytes(b"4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", 16).unwrap()))
}
pub fn p256_mul(k: &BigUint) -> Pt {
    let mut acc: Pt = None;
    let g = p256_base();
    for i in (0..256usize).rev() {
        acc = p256_add(&acc, &acc);
        if ((k >> i) & BigUint::one()).is_one() { acc = p256_add(&acc, &g); }
    }
    acc
}
