//! S01-S05 (secret integers) and H01-H04 (the numeric trait).
use crate::rng::*;
use crate::{Ctx, F, R};
use hacspec::prelude::*;
use num::bigint::{BigInt, Sign};
use num::ToPrimitive;

type U = u8;
macro_rules! s01_neg {
    (unsigned, $x:ident, $a:ident, $m:ident, $big:ident, $pat:ident, $d:ident) => { eq!($pat($d(-$x)), $m(-$big($a)), "-a"); };
    (signed, $x:ident, $a:ident, $m:ident, $big:ident, $pat:ident, $d:ident) => { };
}
macro_rules! s02_body {
    (signed, $U:ident, $c:ident, $w:ident) => { Ok(()) };
    (unsigned, $U:ident, $c:ident, $w:ident) => {{
        let a = $w($c);
        let b = match $c.rng.below(4) { 0 => a, 1 => a.wrapping_add(1), 2 => a.wrapping_sub(1), _ => $w($c) };
        $c.note(format!("{} a={:#x} b={:#x}", stringify!($U), a, b));
        let (x, y) = ($U(a), $U(b));
        let f = |r: bool| if r { !0 } else { 0 };
        eq!(x.comp_eq(y).0, f(a == b), "comp_eq"); eq!(x.comp_ne(y).0, f(a != b), "comp_ne");
        eq!(x.comp_gte(y).0, f(a >= b), "comp_gte"); eq!(x.comp_gt(y).0, f(a > b), "comp_gt");
        eq!(x.comp_lte(y).0, f(a <= b), "comp_lte"); eq!(x.comp_lt(y).0, f(a < b), "comp_lt");
        eq!(x.equal_bm(y).0, f(a == b), "equal_bm"); eq!(x.not_equal_bm(y).0, f(a != b), "not_equal_bm");
        eq!(x.greater_than_or_qual_bm(y).0, f(a >= b), "greater_than_or_qual_bm"); eq!(x.greater_than_bm(y).0, f(a > b), "greater_than_bm");
        eq!(x.less_than_or_equal_bm(y).0, f(a <= b), "less_than_or_equal_bm"); eq!(x.less_than_bm(y).0, f(a < b), "less_than_bm");
        Ok(())
    }};
}
macro_rules! gen {
    ($($m:ident: $U:ident $u:ident $bits:literal $sg:ident;)*) => { $(
    mod $m {
        use super::*;
        type P = $u;
        type S = $U;
        fn w(c: &mut Ctx) -> P { c.rng.word($bits) as P }
        fn d(x: S) -> P { x.0 }
        fn big(x: P) -> BigInt { BigInt::from(x) }
        fn m(x: BigInt) -> u128 { // least non-negative residue mod 2^bits
            let md = BigInt::from(1) << $bits; let mut r = x % &md; if r.sign() == Sign::Minus { r += &md; }
            r.to_u128().unwrap()
        }
        fn pat(x: P) -> u128 { m(big(x)) }
        pub fn s01(c: &mut Ctx) -> R {
            let (a, b) = (w(c), if c.rng.below(5) == 0 { 1 as P } else { w(c) });
            let n = c.rng.below($bits) as u32;
            c.note(format!("{} a={:#x} b={:#x} n={}", stringify!($U), a, b, n));
            let (x, y) = ($U(a), $U(b));
            eq!(pat(d(x + y)), m(big(a) + big(b)), "a + b");
            eq!(pat(d(x - y)), m(big(a) - big(b)), "a - b");
            eq!(pat(d(x * y)), m(big(a) * big(b)), "a * b");
            eq!(pat(d(x & y)), pat(a) & pat(b), "a & b");
            eq!(pat(d(x | y)), pat(a) | pat(b), "a | b");
            eq!(pat(d(x ^ y)), pat(a) ^ pat(b), "a ^ b");
            eq!(pat(d(!x)), m(-big(a) - BigInt::from(1)), "!a");
            eq!(d(x << n), a << n, "a << n");
            eq!(d(x >> n), a >> n, "a >> n");
            eq!(pat(d(x << n)), m(big(a) * (BigInt::from(1) << n as usize)), "a << n (value)");
            eq!(d($U::rotate_left(x, n)), a.rotate_left(n), "rotate_left");
            eq!(d($U::rotate_right(x, n)), a.rotate_right(n), "rotate_right");
            let mut t = x; t += y; eq!(d(t), d(x + y), "+=");
            let mut t = x; t -= y; eq!(d(t), d(x - y), "-=");
            let mut t = x; t *= y; eq!(d(t), d(x * y), "*=");
            let mut t = x; t &= y; eq!(d(t), a & b, "&=");
            let mut t = x; t |= y; eq!(d(t), a | b, "|=");
            let mut t = x; t ^= y; eq!(d(t), a ^ b, "^=");
            let mut t = x; t <<= n; eq!(d(t), a << n, "<<=");
            let mut t = x; t >>= n; eq!(d(t), a >> n, ">>=");
            s01_neg!($sg, x, a, m, big, pat, d);
            eq!(d($U::zero()), 0, "zero"); eq!(d($U::one()), 1, "one"); eq!(d($U::ones()), !0, "ones");
            eq!(d($U::max_value()), <P>::max_value(), "max_value");
            Ok(())
        }
        pub fn s03(c: &mut Ctx) -> R {
            let (a, mut b) = (w(c), w(c));
            match c.rng.below(5) { 0 => b = <P>::max_value().wrapping_sub(a).wrapping_add(c.rng.below(3) as P).wrapping_sub(1),
                1 => b = a.wrapping_add(c.rng.below(3) as P).wrapping_sub(1), 2 if a != 0 => b = (<P>::max_value() / a).wrapping_add(c.rng.below(2) as P),
                3 => b = c.rng.below(4) as P, _ => () }
            c.note(format!("{} a={:#x} b={:#x}", stringify!($U), a, b));
            let (x, y) = ($U(a), $U(b));
            let fit = |v: BigInt| v >= big(<P>::min_value()) && v <= big(<P>::max_value());
            macro_rules! chk { ($f:ident, $v:expr) => {
                if fit($v) { eq!(big(d(val!(x.$f(y), stringify!($f)))), $v, stringify!($f)); } else { must_panic!(x.$f(y), stringify!($f)); } } }
            chk!(checked_add, big(a) + big(b)); chk!(checked_sub, big(a) - big(b)); chk!(checked_mul, big(a) * big(b));
            Ok(())
        }
        pub fn s04(c: &mut Ctx) -> R {
            const B: usize = $bits / 8;
            let n = c.rng.below(6) as usize;
            let v: Vec<P> = (0..n).map(|_| w(c)).collect();
            c.note(format!("{} {:x?}", stringify!($U), v));
            let xs: Vec<S> = v.iter().map(|x| $U(*x)).collect();
            let le: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes().to_vec()).collect();
            let be: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes().to_vec()).collect();
            let un = |v: Vec<U8>| v.iter().map(|x| x.0).collect::<Vec<u8>>();
            eq!(un($U::to_le_bytes(&xs)), le, "to_le_bytes");
            eq!(un($U::to_be_bytes(&xs)), be, "to_be_bytes");
            let cl = |v: &[u8]| v.iter().map(|x| U8(*x)).collect::<Vec<U8>>();
            eq!($U::from_le_bytes(&cl(&le)).iter().map(|x| x.0).collect::<Vec<P>>(), v, "from_le_bytes");
            eq!($U::from_be_bytes(&cl(&be)).iter().map(|x| x.0).collect::<Vec<P>>(), v, "from_be_bytes");
            if B > 1 {
                let l = n * B + 1 + c.rng.below(B as u64 - 1) as usize;
                let bad = cl(&vec![7u8; l]);
                must_panic!($U::from_le_bytes(&bad), "from_le_bytes of {} bytes", l);
                must_panic!($U::from_be_bytes(&bad), "from_be_bytes of {} bytes", l);
            }
            Ok(())
        }
        fn h01g<T: Integer + Copy>(c: &mut Ctx, nm: &str, mk: fn(P) -> T, un: fn(T) -> P) -> R {
            let (a, y) = (w(c), w(c));
            let (i, j) = (c.rng.below($bits) as u32, c.rng.below($bits) as u32);
            let b = c.rng.below(2) as P;
            let lit = c.rng.word(128);
            c.note(format!("{} a={:#x} y={:#x} i={} j={} b={} lit={:#x}", nm, a, y, i, j, b, lit));
            let bit = |x: P, i: u32| (pat(x) >> i) & 1;
            let full: u128 = m(BigInt::from(-1));
            eq!(pat(un(mk(a).get_bit(i))), bit(a, i), "get_bit");
            let want = |b: u128| (pat(a) & !(1u128 << i) & full) | (b << i);
            eq!(pat(un(mk(a).set_bit(mk(b), i))), want(b as u128), "set_bit");
            eq!(pat(un(mk(a).set(i, mk(y), j))), want(bit(y, j)), "set");
            eq!(un(Integer::rotate_left(mk(a), i)), a.rotate_left(i), "rotate_left");
            eq!(un(Integer::rotate_right(mk(a), i)), a.rotate_right(i), "rotate_right");
            eq!(pat(un(T::from_literal(lit))), m(BigInt::from(lit)), "from_literal");
            Ok(())
        }
        pub fn h01(c: &mut Ctx) -> R { if c.rng.bool() { h01g::<P>(c, stringify!($u), |x| x, |x| x) } else { h01g::<S>(c, stringify!($U), |x| $U(x), |x| x.0) } }
        fn h02g<T: Numeric>(c: &mut Ctx, nm: &str, mk: fn(P) -> T, un: fn(T) -> P, bm: bool) -> R {
            let a = w(c);
            let b = match c.rng.below(4) { 0 => a, 1 => a.wrapping_add(1), _ => w(c) };
            c.note(format!("{} a={:#x} b={:#x}", nm, a, b));
            let (x, y) = (mk(a), mk(b));
            eq!(x.equal(y), a == b, "equal"); eq!(x.greater_than(y), a > b, "greater_than");
            eq!(x.greater_than_or_qual(y), a >= b, "greater_than_or_qual");
            eq!(x.less_than(y), a < b, "less_than"); eq!(x.less_than_or_equal(y), a <= b, "less_than_or_equal");
            if bm {
                let mask = |r: bool| if r { !(0 as P) } else { 0 as P };
                eq!(un(x.equal_bm(y)), mask(a == b), "equal_bm"); eq!(un(x.not_equal_bm(y)), mask(a != b), "not_equal_bm");
                eq!(un(x.greater_than_bm(y)), mask(a > b), "greater_than_bm");
                eq!(un(x.greater_than_or_qual_bm(y)), mask(a >= b), "greater_than_or_qual_bm");
                eq!(un(x.less_than_bm(y)), mask(a < b), "less_than_bm");
                eq!(un(x.less_than_or_equal_bm(y)), mask(a <= b), "less_than_or_equal_bm");
            }
            Ok(())
        }
        pub fn h02(c: &mut Ctx) -> R { if c.rng.bool() { h02g::<P>(c, stringify!($u), |x| x, |x| x, true) } else { h02g::<S>(c, stringify!($U), |x| $U(x), |x| x.0, false) } }
        pub fn s02(c: &mut Ctx) -> R { s02_body!($sg, $U, c, w) }
        fn h03g<T: Numeric>(c: &mut Ctx, nm: &str, mk: fn(P) -> T, un: fn(T) -> P) -> R {
            let (mut a, mut b) = (w(c), w(c));
            let mut n = w(c);
            if c.rng.below(3) == 0 { n = (c.rng.below(120) + 1) as P; }
            if n < 0 as P || n == 0 { n = (c.rng.below(127) + 1) as P; }
            if c.rng.bool() { a %= n; b %= n; }
            c.note(format!("{} a={:#x} b={:#x} n={:#x}", nm, a, b, n));
            let (x, y, nn) = (mk(a), mk(b), mk(n));
            let res = |v: BigInt| { let mut r = v % big(n); if r.sign() == Sign::Minus { r += big(n); } r };
            let (lo, hi) = (big(<P>::min_value()), big(<P>::max_value()));
            // intermediates the machine type (for signed types 128 bits) cannot hold may panic
            let wide = |v: &BigInt| if stringify!($sg) == "signed" { *v >= big(<P>::min_value()).min(BigInt::from(i128::min_value())) && *v <= BigInt::from(i128::max_value()) } else { *v >= lo && *v <= hi };
            macro_rules! chk { ($f:ident, $v:expr) => {{
                let v: BigInt = $v;
                match crate::attempt(|| x.$f(y, nn)) {
                    Some(r) => eq!(big(un(r)), res(v), stringify!($f)),
                    None => if wide(&v) && stringify!($sg) != "signed" { return Err(format!("{}: panicked although nothing overflows", stringify!($f))) }
                } }} }
            // signed_mod adds n until the value is positive: long for tiny n only through the remainder, which is bounded by n
            chk!(add_mod, big(a) + big(b)); chk!(mul_mod, big(a) * big(b));
            eq!(big(un(val!(x.modulo(nn), "modulo"))), res(big(a)), "modulo");
            let v = big(a) - big(b);
            match crate::attempt(|| x.sub_mod(y, nn)) {
                Some(r) => eq!(big(un(r)), res(v), "sub_mod"),
                None => if stringify!($sg) == "unsigned" || $bits < 128 { return Err("sub_mod: panicked although nothing overflows".into()) }
            }
            if stringify!($sg) == "unsigned" && n > 1 {
                let g = num::integer::gcd(big(a), big(n));
                if g == BigInt::from(1) {
                    let i = val!(x.inv(nn), "inv");
                    let i = big(un(i));
                    eq!((&i >= &BigInt::from(1) && &i < &big(n), res(i.clone() * big(a))), (true, BigInt::from(1)), "inv = {}", i);
                } else if a % n != 0 { must_panic!(x.inv(nn), "inv of a non-invertible value"); }
            }
            Ok(())
        }
        pub fn h03(c: &mut Ctx) -> R { if c.rng.bool() { h03g::<P>(c, stringify!($u), |x| x, |x| x) } else { h03g::<S>(c, stringify!($U), |x| $U(x), |x| x.0) } }
        fn h04g<T: Integer>(c: &mut Ctx, nm: &str, mk: fn(P) -> T, un: fn(T) -> P, div: bool) -> R {
            let (a, b) = (w(c), w(c));
            let i = c.rng.below($bits) as u32;
            let on = c.rng.bool();
            let b1 = c.rng.below(2) as P;
            c.note(format!("{} a={:#x} b={:#x} i={} bit={} cond={}", nm, a, b, i, b1, on));
            let (x, y) = (mk(a), mk(b));
            let cond = mk(if on { !(0 as P) } else { 0 });
            let one = mk(if on { 1 } else { 0 });
            let pr = |p: (T, T)| (un(p.0), un(p.1));
            let want = if on { (b, a) } else { (a, b) };
            eq!(pr(cswap(x, y, cond)), want, "cswap"); eq!(pr(cswap_bit(x, y, one)), want, "cswap_bit");
            let pick = |v: u128| if on { v } else { pat(a) };
            eq!(pat(un(cadd(x, y, cond))), pick(m(big(a) + big(b))), "cadd");
            eq!(pat(un(csub(x, y, cond))), pick(m(big(a) - big(b))), "csub");
            eq!(pat(un(cmul(x, y, cond))), pick(m(big(a) * big(b))), "cmul");
            let full: u128 = m(BigInt::from(-1));
            eq!(pat(un(cset_bit(x, mk(b1), i, cond))), pick((pat(a) & !(1u128 << i) & full) | ((b1 as u128) << i)), "cset_bit");
            if div && b != 0 { eq!(pr(val!(ct_div(x, y), "ct_div")), (a / b, a % b), "ct_div"); }
            Ok(())
        }
        pub fn h04(c: &mut Ctx) -> R { if c.rng.bool() { h04g::<P>(c, stringify!($u), |x| x, |x| x, stringify!($sg) == "unsigned") } else { h04g::<S>(c, stringify!($U), |x| $U(x), |x| x.0, stringify!($sg) == "unsigned") } }
    } )* }
}
gen! {
    m8: U8 u8 8 unsigned; m16: U16 u16 16 unsigned; m32: U32 u32 32 unsigned; m64: U64 u64 64 unsigned; m128: U128 u128 128 unsigned;
    n8: I8 i8 8 signed; n16: I16 i16 16 signed; n32: I32 i32 32 signed; n64: I64 i64 64 signed; n128: I128 i128 128 signed;
}
fn h01_byte(c: &mut Ctx) -> R {
    macro_rules! t { ($($U:ident $u:ident $b:literal),*) => { $( {
        let a = c.rng.word($b) as $u; let i = c.rng.below($b / 8) as u32;
        c.note(format!("{} {:#x} byte {}", stringify!($U), a, i));
        eq!($U(a).get_byte(i).0 as u128, (a as u128 >> (8 * i)) & 0xff, "get_byte");
    } )* } }
    t!(U8 u8 8, U16 u16 16, U32 u32 32, U64 u64 64, U128 u128 128);
    Ok(())
}
macro_rules! cast {
    ($c:ident; $($from:ident($fu:ident) -> $to:ident($tu:ident)),* $(,)?) => { $( {
        let a = $c.rng.word(128) as $fu;
        eq!($to::from($from(a)).0, a as $tu, "{} {:#x} -> {}", stringify!($from), a, stringify!($to));
    } )* }
}
macro_rules! castp { // public -> secret
    ($c:ident; $($fu:ident -> $to:ident($tu:ident)),* $(,)?) => { $( {
        let a = $c.rng.word(128) as $fu;
        eq!($to::from(a).0, a as $tu, "{} {:#x} -> {}", stringify!($fu), a, stringify!($to));
    } )* }
}
macro_rules! castq { // secret -> public
    ($c:ident; $($from:ident($fu:ident) -> $tu:ident),* $(,)?) => { $( {
        let a = $c.rng.word(128) as $fu;
        eq!($tu::from($from(a)), a as $tu, "{} {:#x} -> {}", stringify!($from), a, stringify!($tu));
    } )* }
}
fn s05(c: &mut Ctx) -> R {
    c.note(format!("case {}", c.idx));
    cast!(c; U8(u8) -> U128(u128), U128(u128) -> U8(u8), U16(u16) -> U128(u128), U128(u128) -> U16(u16), U32(u32) -> U128(u128), U128(u128) -> U32(u32),
        U64(u64) -> U128(u128), U128(u128) -> U64(u64), U8(u8) -> U64(u64), U64(u64) -> U8(u8), U16(u16) -> U64(u64), U64(u64) -> U16(u16),
        U32(u32) -> U64(u64), U64(u64) -> U32(u32), U8(u8) -> U32(u32), U32(u32) -> U8(u8), U16(u16) -> U32(u32), U32(u32) -> U16(u16),
        U8(u8) -> U16(u16), U16(u16) -> U8(u8),
        I8(i8) -> I128(i128), I128(i128) -> I8(i8), I16(i16) -> I128(i128), I128(i128) -> I16(i16), I32(i32) -> I128(i128), I128(i128) -> I32(i32),
        I64(i64) -> I128(i128), I128(i128) -> I64(i64), I8(i8) -> I64(i64), I64(i64) -> I8(i8), I16(i16) -> I64(i64), I64(i64) -> I16(i16),
        I32(i32) -> I64(i64), I64(i64) -> I32(i32), I8(i8) -> I32(i32), I32(i32) -> I8(i8), I16(i16) -> I32(i32), I32(i32) -> I16(i16),
        I8(i8) -> I16(i16), I16(i16) -> I8(i8),
        U128(u128) -> I128(i128), I128(i128) -> U128(u128), U64(u64) -> I64(i64), I64(i64) -> U64(u64), U32(u32) -> I32(i32), I32(i32) -> U32(u32),
        U16(u16) -> I16(i16), I16(i16) -> U16(u16), U8(u8) -> I8(i8), I8(i8) -> U8(u8));
    castp!(c; usize -> U8(u8), usize -> U64(u64), usize -> U128(u128), u8 -> U16(u16), u8 -> U32(u32), u16 -> U32(u32), u8 -> U64(u64), u16 -> U64(u64),
        u32 -> U64(u64), u8 -> U128(u128), u16 -> U128(u128), u32 -> U128(u128), u64 -> U128(u128),
        u8 -> U8(u8), u16 -> U16(u16), u32 -> U32(u32), u64 -> U64(u64), u128 -> U128(u128),
        i8 -> I8(i8), i16 -> I16(i16), i32 -> I32(i32), i64 -> I64(i64), i128 -> I128(i128));
    castq!(c; U8(u8) -> u8, U8(u8) -> u16, U8(u8) -> u32, U8(u8) -> u64, U8(u8) -> u128, U8(u8) -> usize, U16(u16) -> u16, U16(u16) -> u32,
        U16(u16) -> u64, U16(u16) -> u128, U32(u32) -> u32, U32(u32) -> u64, U32(u32) -> u128, U64(u64) -> u64, U64(u64) -> u128, U128(u128) -> u128);
    macro_rules! cl { ($($U:ident $u:ident),*) => { $( { let a = c.rng.word(128) as $u; eq!($U::classify(a).declassify(), a, "classify {}", stringify!($U));
        eq!(<$U as SecretInteger>::classify(a).0, a, "SecretInteger::classify {}", stringify!($U)); } )* } }
    cl!(U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, I8 i8, I16 i16, I32 i32, I64 i64, I128 i128);
    let _: U = 0;
    Ok(())
}
pub fn table(p: &str) -> Option<Vec<F>> {
    macro_rules! all { ($f:ident) => { vec![m8::$f, m16::$f, m32::$f, m64::$f, m128::$f, n8::$f, n16::$f, n32::$f, n64::$f, n128::$f] } }
    Some(match p {
        "S01" => all!(s01),
        "S02" => vec![m8::s02, m16::s02, m32::s02, m64::s02, m128::s02],
        "S03" => all!(s03),
        "S04" => all!(s04),
        "S05" => vec![s05],
        "H01" => { let mut v: Vec<F> = all!(h01); v.push(h01_byte); v }
        "H02" => all!(h02),
        "H03" => all!(h03),
        "H04" => all!(h04),
        _ => return None,
    })
}
