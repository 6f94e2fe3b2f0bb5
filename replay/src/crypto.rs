//! C01-C13: the example primitives against refs.rs.
use crate::refs;
use crate::{attempt, Ctx, F, R};
use hacspec::prelude::*;
use hacspec_examples as ex;
use num::{BigUint, One, Zero};

fn hexs(b: &[u8]) -> String { if b.len() > 80 { format!("{}..({} bytes)", b[..80].iter().map(|x| format!("{:02x}", x)).collect::<String>(), b.len()) } else { b.iter().map(|x| format!("{:02x}", x)).collect() } }
fn sq(b: &[u8]) -> ByteSeq { ByteSeq::from_public_slice(b) }
fn un<S: SeqTrait<U8>>(s: &S) -> Vec<u8> { (0..s.len()).map(|i| s[i].0).collect() }
/// Lengths around multiples of the block size, plus (by index) every small one.
fn len(c: &mut Ctx, blk: usize, max: usize) -> usize {
    let all = 3 * blk as u64;
    if let Some(l) = c.rng.lit_len(3, 140_000) { return l }
    // counters of eight bits, and lengths of sixteen
    match c.idx { 30 => return 256 * blk + 1, 60 => return 255 * blk, 90 => return 257 * blk + 3, 120 if blk > 16 => return 65536 + blk / 2, 150 => return if blk > 16 { 131072 + 3 } else { 8192 + 3 }, 180 if blk > 16 => return 32768 + blk, 190 => return 65536 * blk + blk / 2 + 1, 181 => return 4096, _ => {} }
    if c.idx % 3 != 2 && c.idx / 3 * 2 + c.idx % 3 < all { return (c.idx / 3 * 2 + c.idx % 3) as usize; }
    match c.rng.below(4) {
        0 => { let k = c.rng.below((max / blk) as u64 + 1) as usize * blk; (k + c.rng.below(3) as usize).saturating_sub(1) }
        1 => c.rng.below(2 * blk as u64 + 1) as usize,
        _ => c.rng.below(max as u64 + 1) as usize,
    }
}

fn sha256(c: &mut Ctx) -> R {
    let n = len(c, 64, 700);
    let m = c.rng.bytes(n);
    c.note(format!("sha256 msg({}) {}", n, hexs(&m)));
    eq!(un(&ex::sha2::hash(&sq(&m))), refs::sha256(&m).to_vec(), "sha256");
    Ok(())
}
fn hmac(c: &mut Ctx) -> R {
    let kn = len(c, 64, 300);
    let n = c.rng.below(200) as usize;
    let (k, m) = (c.rng.bytes(kn), c.rng.bytes(n));
    c.note(format!("hmac key({}) {} msg({}) {}", kn, hexs(&k), n, hexs(&m)));
    eq!(un(&ex::hmac::hmac(&sq(&k), &sq(&m))), refs::hmac(&k, &m).to_vec(), "hmac");
    Ok(())
}
fn hmac2(c: &mut Ctx) -> R {
    let n = len(c, 64, 400);
    let kn = *[0usize, 1, 20, 63, 64, 65, 131].get(c.rng.below(7) as usize).unwrap();
    let (k, m) = (c.rng.rbytes(kn), c.rng.bytes(n));
    c.note(format!("hmac key({}) {} msg({}) {}", kn, hexs(&k), n, hexs(&m)));
    eq!(un(&ex::hmac::hmac(&sq(&k), &sq(&m))), refs::hmac(&k, &m).to_vec(), "hmac");
    Ok(())
}
fn extract(c: &mut Ctx) -> R {
    let sn = len(c, 32, 200);
    let n = c.rng.below(150) as usize;
    let (s, m) = (c.rng.bytes(sn), c.rng.bytes(n));
    c.note(format!("extract salt({}) {} ikm({}) {}", sn, hexs(&s), n, hexs(&m)));
    eq!(un(&ex::hkdf::extract(&sq(&s), &sq(&m))), refs::hkdf_extract(&s, &m).to_vec(), "hkdf extract");
    Ok(())
}
fn expand(c: &mut Ctx) -> R {
    let l = match c.idx { 0 => 8160, 1 => 8161, 2 => 0, 3 => 8128, 4 => 8192, 5 => 8129, 6 => 255, 7 => 8159, _ => len(c, 32, if c.idx % 40 == 9 { 8160 } else { 300 }) };
    let pn = *[32usize, 32, 33, 64, 65, 100].get(c.rng.below(6) as usize).unwrap();
    let inn = if c.idx % 5 == 0 { 0 } else { c.rng.below(120) as usize };
    let (p, i) = (c.rng.bytes(pn), c.rng.bytes(inn));
    c.note(format!("expand prk({}) {} info({}) {} len {}", pn, hexs(&p), inn, hexs(&i), l));
    if l > 8160 { must_panic!(ex::hkdf::expand(&sq(&p), &sq(&i), l).len(), "expand to {} bytes", l); return Ok(()) }
    eq!(un(&ex::hkdf::expand(&sq(&p), &sq(&i), l)), refs::hkdf_expand(&p, &i, l), "hkdf expand");
    Ok(())
}
fn ckey(k: &[u8]) -> ex::chacha20_poly1305::chacha20::Key { ex::chacha20_poly1305::chacha20::Key::from_public_slice(k) }
fn civ(k: &[u8]) -> ex::chacha20_poly1305::chacha20::IV { ex::chacha20_poly1305::chacha20::IV::from_public_slice(k) }
fn cblock(c: &mut Ctx) -> R {
    use ex::chacha20_poly1305::chacha20::*;
    let (k, n, ctr) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.word(32) as u32);
    c.note(format!("chacha block key {} nonce {} ctr {:x}", hexs(&k), hexs(&n), ctr));
    eq!(un(&block(ckey(&k), U32(ctr), civ(&n))), refs::chacha_block(&k, ctr, &n), "chacha block");
    let st = block_inner(ckey(&k), U32(ctr), civ(&n));
    let mut v = vec![];
    for i in 0..16 { v.extend_from_slice(&st[i as usize].0.to_le_bytes()) }
    eq!(v, refs::chacha_block(&k, ctr, &n), "chacha block_inner");
    Ok(())
}
fn cstream(c: &mut Ctx) -> R {
    use ex::chacha20_poly1305::chacha20::*;
    let l = len(c, 64, 600);
    let (k, n, m) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(l));
    c.note(format!("chacha key {} nonce {} msg({}) {}", hexs(&k), hexs(&n), l, hexs(&m)));
    let ct = match chacha(ckey(&k), civ(&n), &sq(&m)) { Ok(x) => x, Err(e) => return Err(format!("chacha returned Err({})", e)) };
    eq!(un(&ct), refs::chacha20(&k, &n, 1, &m), "chacha");
    eq!(un(&chacha(ckey(&k), civ(&n), &ct).unwrap()), m, "chacha twice");
    Ok(())
}
fn cquarter(c: &mut Ctx) -> R {
    use ex::chacha20_poly1305::chacha20::*;
    let w: Vec<u32> = (0..16).map(|_| c.rng.word(32) as u32).collect();
    c.note(format!("quarter_round/state_to_bytes {:x?}", w));
    let mut s = State::new();
    for i in 0..16 { s[i] = U32(w[i]) }
    eq!(un(&state_to_bytes(s)), w.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect::<Vec<u8>>(), "state_to_bytes");
    let mut ix: Vec<usize> = (0..16).collect();
    for i in 0..4 { let j = i + c.rng.below(16 - i as u64) as usize; ix.swap(i, j) }
    let r = quarter_round(ix[0] as u32, ix[1] as u32, ix[2] as u32, ix[3] as u32, s);
    let mut v = w.clone();
    let q = [ix[0], ix[1], ix[2], ix[3]];
    for &(a, b, d, s) in [(0usize, 1usize, 3usize, 16u32), (2, 3, 1, 12), (0, 1, 3, 8), (2, 3, 1, 7)].iter() {
        v[q[a]] = v[q[a]].wrapping_add(v[q[b]]);
        v[q[d]] = (v[q[d]] ^ v[q[a]]).rotate_left(s);
    }
    eq!((0..16).map(|i| r[i as usize].0).collect::<Vec<u32>>(), v, "quarter_round {:?}", q);
    Ok(())
}
fn pkey(c: &mut Ctx) -> Vec<u8> {
    let mut k = c.rng.bytes(32);
    match c.rng.below(6) { 0 => for i in 16..32 { k[i] = 0xff }, 1 => for i in 0..16 { k[i] = 0xff }, 2 => { for i in 0..16 { k[i] = 0 } k[0] = 4 }, 3 => { for i in 0..16 { k[i] = 0 } k[(c.rng.below(16)) as usize] = 2 }, _ => {} }
    k
}
/// Messages whose accumulator ends close to 0, 2^128, 2^130-5 as well as random ones.
fn pmsg(c: &mut Ctx, k: &[u8]) -> Vec<u8> {
    let n = len(c, 16, 300);
    let mut m = c.rng.bytes(n);
    if c.rng.below(3) == 0 {
        // choose the last whole block so that (acc + block) * r hits a target
        let p = (BigUint::one() << 130) - 5u32;
        let mut r = k[..16].to_vec();
        for i in [3, 7, 11, 15].iter() { r[*i] &= 15 }
        for i in [4, 8, 12].iter() { r[*i] &= 252 }
        let r = BigUint::from_bytes_le(&r);
        if !r.is_zero() {
            let full = m.len() / 16 * 16;
            m.truncate(full);
            let mut acc = BigUint::zero();
            for b in m.chunks(16) { let mut x = b.to_vec(); x.push(1); acc = (acc + BigUint::from_bytes_le(&x)) * &r % &p; }
            let ri = refs::inv_mod(&r, &p);
            for _ in 0..8 {
                let d = c.rng.below(8);
                let t = match c.rng.below(5) { 0 => BigUint::from(d), 1 => &p - 1u32 - d, 2 => (BigUint::one() << 128) + d, 3 => (BigUint::one() << 128) - 1u32 - d, _ => (BigUint::one() << 129) - 1u32 + d };
                let blk = (t * &ri + &p - &acc) % &p;
                let one = BigUint::one() << 128;
                if blk >= one && blk < (&one + &one) { let mut b = (blk - one).to_bytes_le(); b.resize(16, 0); m.extend_from_slice(&b); break }
            }
        }
    }
    m
}
fn poly(c: &mut Ctx) -> R {
    use ex::chacha20_poly1305::poly1305::*;
    let k = pkey(c);
    let m = pmsg(c, &k);
    c.note(format!("poly1305 key {} msg({}) {}", hexs(&k), m.len(), hexs(&m)));
    let t = poly(&sq(&m), ckey(&k));
    eq!((0..16).map(|i| t[i]).collect::<Vec<u8>>(), refs::poly1305(&k, &m), "poly1305");
    let n = c.rng.bytes(12);
    let t = poly_mac(&sq(&m), ckey(&k), civ(&n));
    eq!((0..16).map(|i| t[i]).collect::<Vec<u8>>(), refs::poly1305(&refs::chacha_block(&k, 0, &n)[..32], &m), "poly_mac nonce {}", hexs(&n));
    Ok(())
}
fn poly_raw(c: &mut Ctx) -> R {
    use ex::chacha20_poly1305::poly1305::*;
    let k = pkey(c);
    let m = pmsg(c, &k);
    c.note(format!("poly1305 key {} msg({}) {}", hexs(&k), m.len(), hexs(&m)));
    let t = poly(&sq(&m), ckey(&k));
    eq!((0..16).map(|i| t[i]).collect::<Vec<u8>>(), refs::poly1305(&k, &m), "poly1305");
    Ok(())
}
fn tweak(c: &mut Ctx, t: &[u8]) -> Vec<u8> {
    let mut t = t.to_vec();
    let n = t.len();
    match c.rng.below(4) {
        0 => { let b = c.rng.below(8 * n as u64) as usize; t[b / 8] ^= 1 << (b % 8) }
        1 => { let z = t.clone(); t = c.rng.bytes(n); if t == z { t[0] ^= 1 } }
        2 => { let a = c.rng.below(n as u64) as usize; let b = (a + 1 + c.rng.below(n as u64 - 1) as usize) % n; t[a] ^= 0x80; t[b] ^= 0x80 }
        _ => { t[n - 1] = t[n - 1].wrapping_add(1) }
    }
    t
}
fn aadlen(c: &mut Ctx) -> usize {
    match c.idx { 35 => return 8192, 65 => return 8205, 95 => return 65536, 125 => return 256, 126 => return 255, 127 => return 4097, _ => {} }
    if let Some(l) = c.rng.lit_len(4, 70_000) { return l }
    if c.rng.below(3) == 0 { c.rng.below(4) as usize * 16 } else { c.rng.below(70) as usize }
}
fn aead(c: &mut Ctx) -> R {
    use ex::chacha20_poly1305::*;
    use ex::chacha20_poly1305::poly1305::Tag;
    let l = if c.idx == 190 { 65536 * 16 + 9 } else { len(c, 64, 300) };
    let al = aadlen(c);
    let (k, n, m, a) = (c.rng.bytes(32), c.rng.bytes(12), c.rng.bytes(l), c.rng.bytes(al));
    c.note(format!("chachapoly key {} nonce {} aad({}) {} msg({}) {}", hexs(&k), hexs(&n), al, hexs(&a), l, hexs(&m)));
    let (ct, tag) = match encrypt(ckey(&k), civ(&n), &sq(&a), &sq(&m)) { Ok(x) => x, Err(e) => return Err(format!("encrypt returned Err({})", e)) };
    let rct = refs::chacha20(&k, &n, 1, &m);
    let rtag = refs::chachapoly_tag(&k, &n, &a, &rct);
    eq!(un(&ct), rct, "ciphertext");
    eq!((0..16).map(|i| tag[i]).collect::<Vec<u8>>(), rtag, "tag");
    let dec = |a: &[u8], ct: &[u8], t: &[u8]| decrypt(ckey(&k), civ(&n), &sq(a), &sq(ct), { let mut g = Tag::new(); for i in 0..16 { g[i] = t[i] } g }).ok().map(|p| un(&p));
    eq!(dec(&a, &rct, &rtag), Some(m.clone()), "decrypt");
    let bad = tweak(c, &rtag);
    eq!(dec(&a, &rct, &bad), None, "decrypt with tag {}", hexs(&bad));
    if l > 0 { let b = tweak2(c, &rct); let want = if refs::chachapoly_tag(&k, &n, &a, &b) == rtag { Some(refs::chacha20(&k, &n, 1, &b)) } else { None }; eq!(dec(&a, &b, &rtag), want, "decrypt of changed ciphertext {}", hexs(&b)); }
    if al > 0 { let b = tweak2(c, &a); let want = if refs::chachapoly_tag(&k, &n, &b, &rct) == rtag { Some(m.clone()) } else { None }; eq!(dec(&b, &rct, &rtag), want, "decrypt with changed aad {}", hexs(&b)); }
    // any ciphertext with its own tag decrypts
    let x = c.rng.bytes(l);
    let t = refs::chachapoly_tag(&k, &n, &a, &x);
    eq!(dec(&a, &x, &t), Some(refs::chacha20(&k, &n, 1, &x)), "decrypt of an arbitrary ciphertext with its tag");
    Ok(())
}
fn tweak2(c: &mut Ctx, t: &[u8]) -> Vec<u8> {
    let mut t = t.to_vec();
    match c.rng.below(3) { 0 => t.push(0), 1 => { t.pop(); } _ => { let n = t.len(); let b = c.rng.below(8 * n as u64) as usize; t[b / 8] ^= 1 << (b % 8) } }
    t
}
fn akey(c: &mut Ctx) -> Vec<u8> { let n = if c.rng.bool() { 16 } else { 32 }; c.rng.bytes(n) }
fn aesblock(c: &mut Ctx) -> R {
    use ex::aes_gcm::aes::*;
    let (k, b) = (akey(c), c.rng.bytes(16));
    c.note(format!("aes key {} block {}", hexs(&k), hexs(&b)));
    let blk = Block::from_public_slice(&b);
    let o = if k.len() == 16 { aes128_encrypt_block(Key128::from_public_slice(&k), blk, 4, 10) } else { aes256_encrypt_block(Key256::from_public_slice(&k), blk, 8, 14) };
    eq!(un(&o), refs::aes(&k, &b).to_vec(), "aes");
    Ok(())
}
fn aesctr(c: &mut Ctx) -> R {
    use ex::aes_gcm::aes::*;
    let l = len(c, 16, 120);
    let (k, n, m) = (akey(c), c.rng.bytes(12), c.rng.bytes(l));
    let ctr = match c.rng.below(3) { 0 => c.rng.word(32) as u32, 1 => 0u32.wrapping_sub(c.rng.below(6) as u32), _ => { let s = c.rng.below(32); (1u32 << s).wrapping_sub(c.rng.below(6) as u32) } };
    c.note(format!("aes-ctr key {} nonce {} ctr {:x} msg({}) {}", hexs(&k), hexs(&n), ctr, l, hexs(&m)));
    let nn = Nonce::from_public_slice(&n);
    let f = |m: &[u8], d: bool| -> Vec<u8> {
        let m = sq(m);
        un(&if k.len() == 16 { let k = Key128::from_public_slice(&k); if d { aes128_decrypt(k, nn, U32(ctr), &m) } else { aes128_encrypt(k, nn, U32(ctr), &m) } }
        else { let k = Key256::from_public_slice(&k); if d { aes256_decrypt(k, nn, U32(ctr), &m) } else { aes256_encrypt(k, nn, U32(ctr), &m) } })
    };
    let ct = refs::aes_ctr(&k, &n, ctr, &m);
    eq!(f(&m, false), ct, "aes-ctr encryption");
    eq!(f(&ct, true), m, "aes-ctr decryption");
    Ok(())
}
fn gmac(c: &mut Ctx) -> R {
    use ex::aes_gcm::gf128::*;
    let l = len(c, 16, 200);
    let (k, m) = (c.rng.bytes(16), c.rng.bytes(l));
    c.note(format!("ghash key {} msg({}) {}", hexs(&k), l, hexs(&m)));
    eq!(un(&gmac(&sq(&m), Key::from_public_slice(&k))), refs::ghash(&k, &m).to_vec(), "ghash");
    Ok(())
}
fn gmac2(c: &mut Ctx) -> R {
    // one block: a bare field multiplication
    use ex::aes_gcm::gf128::*;
    let (k, m) = (c.rng.word(128).to_be_bytes().to_vec(), c.rng.word(128).to_be_bytes().to_vec());
    c.note(format!("ghash key {} block {}", hexs(&k), hexs(&m)));
    eq!(un(&gmac(&sq(&m), Key::from_public_slice(&k))), refs::ghash(&k, &m).to_vec(), "ghash");
    Ok(())
}
fn gcm(c: &mut Ctx) -> R {
    use ex::aes_gcm::*;
    let l = len(c, 16, 100);
    let al = aadlen(c);
    let (k, n, m, a) = (akey(c), c.rng.bytes(12), c.rng.bytes(l), c.rng.bytes(al));
    c.note(format!("aes-gcm key {} nonce {} aad({}) {} msg({}) {}", hexs(&k), hexs(&n), al, hexs(&a), l, hexs(&m)));
    let nn = aes::Nonce::from_public_slice(&n);
    let (ct, tag) = if k.len() == 16 { encrypt_aes128(aes::Key128::from_public_slice(&k), nn, &sq(&a), &sq(&m)) } else { encrypt_aes256(aes::Key256::from_public_slice(&k), nn, &sq(&a), &sq(&m)) };
    let (rct, rtag) = refs::gcm(&k, &n, &a, &m);
    eq!(un(&ct), rct, "ciphertext");
    eq!(un(&tag), rtag, "tag");
    let dec = |a: &[u8], ct: &[u8], t: &[u8]| -> Option<Vec<u8>> {
        let t = gf128::Tag::from_public_slice(t);
        if k.len() == 16 { decrypt_aes128(aes::Key128::from_public_slice(&k), nn, &sq(a), &sq(ct), t) } else { decrypt_aes256(aes::Key256::from_public_slice(&k), nn, &sq(a), &sq(ct), t) }.ok().map(|p| un(&p))
    };
    eq!(dec(&a, &rct, &rtag), Some(m.clone()), "decrypt");
    let bad = tweak(c, &rtag);
    eq!(dec(&a, &rct, &bad), None, "decrypt with tag {}", hexs(&bad));
    if l > 0 && c.idx % 2 == 0 { let b = tweak2(c, &rct); let want = if refs::gcm_tag(&k, &n, &a, &b) == rtag { Some(refs::aes_ctr(&k, &n, 2, &b)) } else { None }; eq!(dec(&a, &b, &rtag), want, "decrypt of changed ciphertext {}", hexs(&b)); }
    if al > 0 && c.idx % 2 == 1 { let b = tweak2(c, &a); let want = if refs::gcm_tag(&k, &n, &b, &rct) == rtag { Some(m.clone()) } else { None }; eq!(dec(&b, &rct, &rtag), want, "decrypt with changed aad {}", hexs(&b)); }
    Ok(())
}
fn sha3(c: &mut Ctx) -> R {
    use ex::fips202::*;
    let k = c.idx % 6;
    let rate = [144usize, 136, 104, 72, 168, 136][k as usize];
    let l = {
        let i = (c.idx / 6) as usize;
        let near = [0, rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate, 2 * rate + 1, 1, rate - 2, 3 * rate];
        if i < near.len() { near[i] } else { len(c, rate, 500) }
    };
    let m = c.rng.bytes(l);
    let big = match c.idx { 46 => Some(24_000), 47 => Some(24_000), 52 => Some(70_001), 53 => Some(65_536), 64 => Some(168 * 65536 + 5), 65 => Some(136 * 65536 + 136), 58 => Some(8_192), 59 => Some(256 * 136), _ => c.rng.lit_len(4, 140_000) };
    let ol = if let Some(b) = big { b } else { match c.rng.below(4) { 0 => c.rng.below(3) as usize * rate, 1 => (c.rng.below(3) as usize * rate + 1), 2 => rate * (1 + c.rng.below(3) as usize) - 1, _ => c.rng.below(520) as usize } };
    c.note(format!("{} out {} msg({}) {}", ["sha3-224", "sha3-256", "sha3-384", "sha3-512", "shake128", "shake256"][k as usize], ol, l, hexs(&m)));
    let s = sq(&m);
    let (got, want) = match k {
        0 => (un(&sha3224(&s)), refs::keccak(144, &m, 6, 28)),
        1 => (un(&sha3256(&s)), refs::keccak(136, &m, 6, 32)),
        2 => (un(&sha3384(&s)), refs::keccak(104, &m, 6, 48)),
        3 => (un(&sha3512(&s)), refs::keccak(72, &m, 6, 64)),
        4 => (un(&shake128(&s, ol)), refs::keccak(168, &m, 0x1f, ol)),
        _ => (un(&shake256(&s, ol)), refs::keccak(136, &m, 0x1f, ol)),
    };
    eq!(got, want, "digest");
    Ok(())
}
fn blake(c: &mut Ctx) -> R {
    let l = if c.idx == 40 { 70000 } else { len(c, 128, 1300) };
    let m = c.rng.bytes(l);
    c.note(format!("blake2b msg({}) {}", l, hexs(&m)));
    eq!(un(&ex::blake2::blake2b::blake2b(&sq(&m))), refs::blake2b(&m), "blake2b");
    Ok(())
}
fn le(hex: &str) -> Vec<u8> { let mut v = BigUint::parse_bytes(hex.as_bytes(), 16).unwrap().to_bytes_le(); v.resize(32, 0); v }
fn x25519(c: &mut Ctx) -> R {
    use ex::curve25519::*;
    let specials = ["0", "1", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffec",
        "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffee",
        "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "8000000000000000000000000000000000000000000000000000000000000009", "9", "2",
        "00b8495f16056286fdb1329ceb8d09da6ac49ff1fae35616aeb8413b7c7aebe0", "57119fd0dd4e22d8868e1c58c45c44045bef839c55b1d0b1248c50a3bc959c5f",
        "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff0"];
    let i = c.idx as usize;
    let u = if i / 2 < specials.len() && i % 2 == 0 { le(specials[i / 2]) } else { c.rng.bytes(32) };
    let k = c.rng.bytes(32);
    c.note(format!("x25519 scalar {} u {}", hexs(&k), hexs(&u)));
    eq!(un(&scalarmult(SerializedScalar::from_public_slice(&k), SerializedPoint::from_public_slice(&u))), refs::x25519(&k, &u), "x25519");
    if i % 4 == 1 { eq!(un(&secret_to_public(SerializedScalar::from_public_slice(&k))), refs::x25519(&k, &le("9")), "secret_to_public"); }
    Ok(())
}
fn p256(c: &mut Ctx) -> R {
    use ex::p256::*;
    let n = refs::p256_order();
    let k = match c.idx {
        0 => BigUint::one(), 1 => BigUint::from(2u32), 2 => &n - 1u32, 3 => &n - 2u32, 4 => (&n - 1u32) / 2u32, 5 => (&n + 1u32) / 2u32, 6 => BigUint::from(3u32), 7 => BigUint::one() << 255, 8 => BigUint::one() << 128, 9 => (BigUint::one() << 128) - 1u32,
        _ => match c.rng.below(6) { 0 => BigUint::from(4 + c.rng.below(300)), 1 => &n - 3u32 - c.rng.below(300), 2 => BigUint::one() << (c.rng.below(256) as usize), 3 => (BigUint::one() << (1 + c.rng.below(255) as usize)) - 1u32, _ => { let b = c.rng.rbytes(32); BigUint::from_bytes_be(&b) % &n } },
    };
    let k = if k.is_zero() || k >= n { BigUint::one() } else { k };
    c.note(format!("p256 k {:x}", k));
    let h = |v: &BigUint| format!("{:0>64}", v.to_str_radix(16));
    let (x, y) = point_mul(Scalar::from_hex(&h(&k)));
    let (rx, ry) = refs::p256_mul(&k).unwrap();
    eq!((x, y), (FieldElement::from_hex(&h(&rx)), FieldElement::from_hex(&h(&ry))), "p256 (x, y)");
    Ok(())
}
pub fn table(p: &str) -> Option<Vec<F>> {
    Some(match p {
        "C01" => vec![sha256],
        "C02" => vec![hmac, hmac2],
        "C03" => vec![extract, expand],
        "C04" => vec![cblock, cstream, cquarter],
        "C05" => vec![poly, poly_raw],
        "C06" => vec![aead],
        "C07" => vec![aesblock, aesctr],
        "C08" => vec![gmac, gmac2],
        "C09" => vec![gcm],
        "C10" => vec![sha3],
        "C11" => vec![blake],
        "C12" => vec![x25519],
        "C13" => vec![p256],
        _ => return None,
    })
}
