//! A01 (bounded integers) and A02 (modular integers).
use crate::rng::*;
use crate::{attempt, Ctx, F, R};
use num::bigint::BigInt as Z;
use num::bigint::Sign as ZS;
use num::ToPrimitive;

fn z(x: i128) -> Z { Z::from(x) }
fn pow2(b: usize) -> Z { z(1) << b }
/// An integer biased to 0, 1, the bound and just beyond it.
fn pick(c: &mut Ctx, max: &Z, signed: bool) -> Z {
    let bits = max.bits();
    if let Some(v) = c.rng.lit(5) { let v = Z::from(v); if &v <= max { return if signed && c.rng.bool() { -v } else { v } } }
    let mut v = match c.rng.below(9) {
        0 => z(0), 1 => z(1), 2 => max.clone(), 3 => max - z(c.rng.below(3) as i128), 4 => pow2(c.rng.below(bits as u64 + 1) as usize) - z(c.rng.below(2) as i128),
        5 => z(c.rng.below(300) as i128),
        6 => { let n = (bits + 7) / 8; let m = 1 + c.rng.below(n as u64) as usize; Z::from_bytes_be(ZS::Plus, &c.rng.rbytes(m)) }
        _ => Z::from_bytes_be(ZS::Plus, &c.rng.rbytes((bits + 7) / 8)),
    };
    if &v > max { v = v % (max + z(1)); }
    if v < z(0) { v = z(0); }
    if signed && c.rng.bool() { v = -v; }
    v
}
/// A second operand: half of the time one at a boundary relative to the first.
fn second(c: &mut Ctx, a: &Z, max: &Z, signed: bool) -> Z {
    if c.rng.bool() { return pick(c, max, signed) }
    let pos = if a < &z(0) { -a } else { a.clone() };
    let d = z(c.rng.below(3) as i128 - 1);
    let v = match c.rng.below(6) { 0 => pos.clone(), 1 => &pos + &d, 2 => max - &pos + &d, 3 if pos > z(0) => max / &pos + &d, 4 => (max + z(1)) - &pos, _ => (&pos >> 1) + &d };
    let v = if signed && c.rng.bool() { -v } else { v };
    if &v > max || v < (if signed { -max } else { z(0) }) { return pick(c, max, signed) }
    v
}
fn chk(got: Option<Z>, want: Option<Z>, what: &str) -> R {
    if got != want { return Err(format!("{}: got {:?}, expected {:?} (None: panic)", what, got.map(|x| x.to_string()), want.map(|x| x.to_string()))); }
    Ok(())
}

/// text that is not an even number of hexadecimal digits
pub fn bad_hex(c: &mut crate::Ctx, b: &[u8]) -> String {
    let h = if c.rng.bool() { crate::rng::hex(b) } else { crate::rng::hex(b).to_uppercase() };
    match c.rng.below(4) {
        0 => { let d = *b"0aF".get(c.rng.below(3) as usize).unwrap() as char; if c.rng.bool() { format!("{}{}", d, h) } else { format!("{}{}", h, d) } }
        1 => { let e = *["  ", "0x", "0X", "\n\n", " \n", "--", "+1", "-1", "::", "__", "_", ",", "\0\0", "\u{feff}", "\u{a0}", "\u{661}"].get(c.rng.below(16) as usize).unwrap(); if c.rng.bool() { format!("{}{}", e, h) } else { format!("{}{}", h, e) } }
        _ => { let mut v = h.into_bytes(); v.extend_from_slice(b"0a"); let i = c.rng.below(v.len() as u64) as usize; v[i] = *b"gG+-/: @`zxX_\x7f\0".get(c.rng.below(15) as usize).unwrap(); String::from_utf8(v).unwrap() }
    }
}
macro_rules! a01_pub {
    (secret, $a:ident, $b:ident, $mk:ident, $chk:ident, $at:ident, $val:ident, $z:ident) => {};
    (public, $a:ident, $b:ident, $mk:ident, $chk:ident, $at:ident, $val:ident, $z:ident) => {
        let nz = $b != $z(0);
        $chk($at(|| $val($mk(&$a) / $mk(&$b))), if nz { Some(&$a / &$b) } else { None }, "/")?;
        $chk($at(|| $val($mk(&$a) % $mk(&$b))), if nz { Some(&$a % &$b) } else { None }, "%")?;
        let (x, y) = ($mk(&$a), $mk(&$b));
        eq!((x == y, x < y, x <= y, x > y, x >= y), ($a == $b, $a < $b, $a <= $b, $a > $b, $a >= $b), "comparisons");
        eq!(x.cmp(&y), $a.cmp(&$b), "cmp");
    }
}
macro_rules! a01_bytes {
    (unsigned, $T:ident, $a:ident, $mk:ident, $chk:ident, $at:ident, $val:ident, $keep:ident, $raw:ident, $Z:ident, $ZS:ident, $hex:ident, $c:ident) => {
        $chk($at(|| $val($T::from_le_bytes(&$raw))), $keep($Z::from_bytes_le($ZS::Plus, &$raw)), "from_le_bytes")?;
        $chk($at(|| $val($T::from_hex(&$hex(&$raw)))), $keep($Z::from_bytes_be($ZS::Plus, &$raw)), "from_hex")?;
        $chk($at(|| $val($T::from_hex(&$hex(&$raw).to_uppercase()))), $keep($Z::from_bytes_be($ZS::Plus, &$raw)), "from_hex of upper case")?;
        let t_ = $crate::abst::bad_hex($c, &$raw); $c.note(format!("text {:?}", t_));
        $chk($at(|| $val($T::from_hex(&t_))), None, "from_hex of other text")?;
        $chk($at(|| $Z::from_bytes_le($ZS::Plus, &$mk(&$a).to_le_bytes())), Some($a.clone()), "to_le_bytes")?;
        $chk($at(|| $val($T::from_le_bytes(&$mk(&$a).to_le_bytes()))), Some($a.clone()), "to_le_bytes, from_le_bytes")?;
    };
    (signed, $T:ident, $a:ident, $mk:ident, $chk:ident, $at:ident, $val:ident, $keep:ident, $raw:ident, $Z:ident, $ZS:ident, $hex:ident, $c:ident) => {
        $chk($at(|| $val($T::from_hex("+", &$hex(&$raw)))), $keep($Z::from_bytes_be($ZS::Plus, &$raw)), "from_hex +")?;
        $chk($at(|| $val($T::from_hex("-", &$hex(&$raw).to_uppercase()))), $keep($Z::from_bytes_be($ZS::Minus, &$raw)), "from_hex -")?;
        let t_ = $crate::abst::bad_hex($c, &$raw); $c.note(format!("text {:?}", t_));
        $chk($at(|| $val($T::from_hex(if $raw.len() % 2 == 0 { "+" } else { "-" }, &t_))), None, "from_hex of other text")?;
        let s_ = *["*", "++", " ", "+-", "-+", "+ ", "\u{2212}", "0", "plus", "--"].get($raw.len() % 10).unwrap();
        $chk($at(|| $val($T::from_hex(s_, &$hex(&$raw)))), None, "from_hex of another sign")?;
    };
}
macro_rules! wraps {
    (abstract_unsigned_public_integer, $a:expr, $b:expr, $chk:ident, $at:ident, $val:ident, $add:expr, $sub:expr, $mul:expr) => {};
    ($d:ident, $a:expr, $b:expr, $chk:ident, $at:ident, $val:ident, $add:expr, $sub:expr, $mul:expr) => {
        $chk($at(|| $val(NumericBase::wrap_add($a, $b))), $add, "wrap_add")?;
        $chk($at(|| $val(NumericBase::wrap_sub($a, $b))), $sub, "wrap_sub")?;
        $chk($at(|| $val(NumericBase::wrap_mul($a, $b))), $mul, "wrap_mul")?;
    }
}
macro_rules! bounded { ($m:ident, $decl:ident, $bits:literal, $signed:literal, $public:tt, $usg:tt) => {
    mod $m {
        use super::{z, pow2, pick, second, chk, attempt, Ctx, R, Z, ZS};
        use hacspec::prelude::*;
        use abstract_integers::*;
        use crate::rng::hex;
        $decl!(T, $bits);
        fn val(x: T) -> Z { x.into() }
        pub fn a01(c: &mut Ctx) -> R {
            let max = pow2($bits) - z(1);
            let min = if $signed { -max.clone() } else { z(0) };
            let inr = |v: &Z| *v <= max && *v >= min;
            let keep = |v: Z| if inr(&v) { Some(v) } else { None };
            let a = pick(c, &max, $signed); let b = second(c, &a, &max, $signed);
            c.note(format!("{} {} bits a={} b={}", stringify!($decl), $bits, a, b));
            let mk = |x: &Z| T::from(x.clone());
            chk(attempt(|| val(mk(&a))), Some(a.clone()), "construction")?;
            for k in 1..4 { chk(attempt(|| val(mk(&(&max + z(k))))), None, "construction above the upper bound")?;
                chk(attempt(|| val(mk(&(&min - z(k))))), None, "construction below the lower bound")?; }
            chk(attempt(|| val(mk(&max))), Some(max.clone()), "construction of the upper bound")?;
            chk(attempt(|| val(mk(&min))), Some(min.clone()), "construction of the lower bound")?;
            chk(attempt(|| val(T::default())), Some(z(0)), "default")?;
            chk(attempt(|| val(mk(&a) + mk(&b))), keep(&a + &b), "+")?;
            chk(attempt(|| val(mk(&a) - mk(&b))), keep(&a - &b), "-")?;
            chk(attempt(|| val(mk(&a) * mk(&b))), keep(&a * &b), "*")?;
            wraps!($decl, mk(&a), mk(&b), chk, attempt, val, keep(&a + &b), keep(&a - &b), keep(&a * &b));
            a01_pub!($public, a, b, mk, chk, attempt, val, z);
            let l = c.rng.word(128);
            chk(attempt(|| val(T::from_literal(l))), keep(Z::from(l)), "from_literal")?;
            let s = c.rng.word(128) as i128; let s = if c.rng.bool() { s } else { s % 4096 };
            c.note(format!("literals {} {}", l, s));
            chk(attempt(|| val(T::from_signed_literal(s))), keep(z(s)), "from_signed_literal")?;
            let raw = { let k = c.rng.below(($bits + 7) / 8 + 2) as usize; c.rng.bytes(k) };
            c.note(format!("bytes {}", hex(&raw)));
            a01_bytes!($usg, T, a, mk, chk, attempt, val, keep, raw, Z, ZS, hex, c);
            if a >= z(0) {
                let i = c.rng.below((($bits + 7) / 8) * 8) as usize;
                eq!(mk(&a).bit(i), (&a >> i) % z(2) == z(1), "bit {}", i);
                let u: BigUint = mk(&a).into(); eq!(Z::from(u.clone()), a, "to BigUint"); eq!(val(T::from(u)), a, "from BigUint");
            }
            Ok(())
        }
    }
} }
bounded!(up7, unsigned_public_integer, 7, false, public, unsigned);
bounded!(up64, unsigned_public_integer, 64, false, public, unsigned);
bounded!(up255, unsigned_public_integer, 255, false, public, unsigned);
bounded!(us100, unsigned_integer, 100, false, secret, unsigned);
bounded!(us256, unsigned_integer, 256, false, secret, unsigned);
bounded!(sp12, signed_public_integer, 12, true, public, signed);
bounded!(sp233, signed_public_integer, 233, true, public, signed);
bounded!(ss33, signed_integer, 33, true, secret, signed);
bounded!(ap16, abstract_unsigned_public_integer, 16, false, public, unsigned);

macro_rules! a02_seq { ($T:ident, $raw:ident, $chk:ident, $at:ident, $val:ident, $fit:ident, $Z:ident, $ZS:ident, $x:ident, $ra:ident) => {
    $chk($at(|| $val($T::from_byte_seq_le(Seq::<U8>::from_public_slice(&$raw)))), $fit($Z::from_bytes_le($ZS::Plus, &$raw)), "from_byte_seq_le")?;
    $chk($at(|| { let s = $x.to_byte_seq_le(); $Z::from_bytes_le($ZS::Plus, &s.iter().map(|b| b.0).collect::<Vec<u8>>()) }), Some($ra.clone()), "to_byte_seq_le")?;
    $chk($at(|| { let s = $x.to_public_byte_seq_le(); $Z::from_bytes_le($ZS::Plus, &s.iter().map(|b| *b).collect::<Vec<u8>>()) }), Some($ra.clone()), "to_public_byte_seq_le")?;
} }
macro_rules! a02_pub {
    (secret, $p:literal, $T:ident, $c:ident, $a:ident, $b:ident, $mk:ident, $chk:ident, $at:ident, $val:ident, $md:ident, $n:ident, $raw:ident, $fit:ident, $Z:ident, $ZS:ident, $z:ident) => {};
    (public, $p:literal, $T:ident, $c:ident, $a:ident, $b:ident, $mk:ident, $chk:ident, $at:ident, $val:ident, $md:ident, $n:ident, $raw:ident, $fit:ident, $Z:ident, $ZS:ident, $z:ident) => {
        let (ra, rb) = ($md($a.clone()), $md($b.clone()));
        let (x, y) = ($mk(&$a), $mk(&$b));
        eq!((x == y, x < y, x <= y, x > y, x >= y, x.cmp(&y)), (ra == rb, ra < rb, ra <= rb, ra > rb, ra >= rb, ra.cmp(&rb)), "comparisons");
        let e = match $c.rng.below(3) { 0 => $c.rng.below(6) as u128, 1 => $c.rng.word(128), _ => $c.rng.below(1 << 20) as u128 };
        $c.note(format!("exponent {}", e));
        let pw = |e: &$Z| $md(ra.modpow(e, &$n));
        $chk($at(|| $val($T::pow(x, e))), Some(pw(&$Z::from(e))), "pow")?;
        $chk($at(|| $val(x.pow_felem(y))), Some(pw(&rb)), "pow_felem")?;
        if $p && ra != $z(0) {
            let i = $val(val!($T::inv(x), "inv"));
            eq!(($md(&i * &ra), i < $n), ($z(1), true), "x * inv(x), inv {}", i);
        }
        a02_seq!($T, $raw, $chk, $at, $val, $fit, $Z, $ZS, x, ra);
    };
}
macro_rules! modular { ($m:ident, $decl:ident, $bits:literal, $n:literal, $prime:literal, $public:tt) => {
    mod $m {
        use super::{z, pow2, pick, second, chk, attempt, Ctx, R, Z, ZS};
        use hacspec::prelude::*;
        use abstract_integers::*;
        $decl!(T, Base, $bits, $n);
        fn val(x: T) -> Z { let b: Base = x.into(); b.into() }
        pub fn a02(c: &mut Ctx) -> R {
            let n = Z::parse_bytes($n.as_bytes(), 16).unwrap();
            let wide = pow2($bits);
            let md = |v: Z| { let r = v % &n; if r < z(0) { r + &n } else { r } };
            let top = &wide - z(1);
            let full = c.rng.below(3) == 0;
            let lim = if full { top.clone() } else { &n - z(1) };
            let a = pick(c, &lim, false); let b = second(c, &a, &lim, false);
            c.note(format!("{} mod {} a={} b={}", stringify!($decl), n, a, b));
            let mk = |x: &Z| -> T { let b: Base = x.clone().into(); b.into() };
            chk(attempt(|| val(mk(&a))), Some(md(a.clone())), "construction")?;
            chk(attempt(|| val(T::default())), Some(z(0)), "default")?;
            chk(attempt(|| { let b: Base = T::max(); b.into() }), Some(n.clone()), "max")?;
            chk(attempt(|| val(mk(&a) + mk(&b))), Some(md(&a + &b)), "+")?;
            chk(attempt(|| val(mk(&a) - mk(&b))), Some(md(&a - &b)), "-")?;
            chk(attempt(|| val(mk(&a) * mk(&b))), Some(md(&a * &b)), "*")?;
            wraps!($decl, mk(&a), mk(&b), chk, attempt, val, Some(md(&a + &b)), Some(md(&a - &b)), Some(md(&a * &b)));
            chk(attempt(|| val((mk(&a) * mk(&b) - mk(&b)) * (mk(&a) + mk(&a)))), Some(md((&a * &b - &b) * (&a + &a))), "(ab - b) 2a")?;
            let l = match c.rng.below(4) { 0 => super::ToPrimitive::to_u128(&n).unwrap_or(77), 1 => c.rng.word(128), _ => c.rng.below(5) as u128 };
            chk(attempt(|| val(T::from_literal(l))), if Z::from(l) <= n { Some(md(Z::from(l))) } else { None }, "from_literal")?;
            let s = (c.rng.word(128) as i128) >> (c.rng.below(127) as u32);
            let s = if c.rng.below(5) == 0 { super::ToPrimitive::to_i128(&-&n).unwrap_or(-5) } else { s };
            c.note(format!("literals {} {}", l, s));
            let abs = if s < 0 { -z(s) } else { z(s) };
            chk(attempt(|| val(T::from_signed_literal(s))), if abs <= n { Some(md(z(s))) } else { None }, "from_signed_literal")?;
            let raw = { let k = c.rng.below(($bits + 7) / 8 + 2) as usize; c.rng.bytes(k) };
            c.note(format!("bytes {}", crate::rng::hex(&raw)));
            let fit = |v: Z| if v < wide { Some(md(v)) } else { None };
            chk(attempt(|| val(T::from_le_bytes(&raw))), fit(Z::from_bytes_le(ZS::Plus, &raw)), "from_le_bytes")?;
            chk(attempt(|| val(T::from_hex(&crate::rng::hex(&raw)))), fit(Z::from_bytes_be(ZS::Plus, &raw)), "from_hex")?;
            let t_ = super::bad_hex(c, &raw); c.note(format!("text {:?}", t_));
            chk(attempt(|| val(T::from_hex(&t_))), None, "from_hex of other text")?;
            chk(attempt(|| Z::from_bytes_le(ZS::Plus, &mk(&a).to_le_bytes())), Some(md(a.clone())), "to_le_bytes")?;
            let i = c.rng.below((($bits + 7) / 8) * 8) as usize;
            eq!(mk(&a).bit(i), (md(a.clone()) >> i) % z(2) == z(1), "bit {}", i);
            a02_pub!($public, $prime, T, c, a, b, mk, chk, attempt, val, md, n, raw, fit, Z, ZS, z);
            Ok(())
        }
    }
} }
modular!(p13, public_nat_mod, 8, "0d", true, public);
modular!(p251, public_nat_mod, 8, "fb", true, public);
modular!(c200, public_nat_mod, 16, "00c8", false, public);
modular!(p25519, public_nat_mod, 256, "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", true, public);
modular!(p1305, public_nat_mod, 131, "03fffffffffffffffffffffffffffffffb", true, public);
modular!(pp256, public_nat_mod, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", true, public);
modular!(s13, nat_mod, 8, "0d", true, secret);
modular!(s256, nat_mod, 256, "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", true, secret);
modular!(s64, nat_mod, 64, "1fffffffffffff", false, secret);

pub fn table(p: &str) -> Option<Vec<F>> {
    Some(match p {
        "A01" => vec![up7::a01, up64::a01, up255::a01, us100::a01, us256::a01, sp12::a01, sp233::a01, ss33::a01, ap16::a01],
        "A02" => vec![p13::a02, p251::a02, c200::a02, p25519::a02, p1305::a02, pp256::a02, s13::a02, s256::a02, s64::a02],
        _ => return None,
    })
}
