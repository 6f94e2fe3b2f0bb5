//! S01-S05: secret integers.
use super::util::*;
use hacspec::prelude::*;

macro_rules! neg {
    (unsigned $U:ident $a:ident) => { assert!((-$U($a)).0 == (!$a).wrapping_add(1), "S01 neg: two's complement"); };
    (signed $U:ident $a:ident) => { };
}
macro_rules! masks {
    (signed $U:ident $u:ident) => {};
    (unsigned $U:ident $u:ident) => {
        #[kani::proof]
        fn s02_masks() {
            let (a, b): ($u, $u) = (kani::any(), kani::any());
            let (x, y) = ($U(a), $U(b));
            let f = |r: bool| -> $u { if r { !0 } else { 0 } };
            assert!(x.comp_eq(y).0 == f(a == b), "S02 comp_eq: mask of ==");
            assert!(x.comp_ne(y).0 == f(a != b), "S02 comp_ne: mask of !=");
            assert!(x.comp_gte(y).0 == f(a >= b), "S02 comp_gte: mask of >=");
            assert!(x.comp_gt(y).0 == f(a > b), "S02 comp_gt: mask of >");
            assert!(x.comp_lte(y).0 == f(a <= b), "S02 comp_lte: mask of <=");
            assert!(x.comp_lt(y).0 == f(a < b), "S02 comp_lt: mask of <");
            assert!(x.equal_bm(y).0 == f(a == b), "S02 equal_bm: mask of ==");
            assert!(x.not_equal_bm(y).0 == f(a != b), "S02 not_equal_bm: mask of !=");
            assert!(x.greater_than_or_qual_bm(y).0 == f(a >= b), "S02 greater_than_or_qual_bm: mask of >=");
            assert!(x.greater_than_bm(y).0 == f(a > b), "S02 greater_than_bm: mask of >");
            assert!(x.less_than_or_equal_bm(y).0 == f(a <= b), "S02 less_than_or_equal_bm: mask of <=");
            assert!(x.less_than_bm(y).0 == f(a < b), "S02 less_than_bm: mask of <");
            kani::cover!(a > b && a != 0, "S02 reach");
        }
    };
}
macro_rules! gen {
    ($($m:ident: $U:ident $u:ident $bits:literal $sg:ident;)*) => { $(
    pub mod $m {
        use super::*;
        #[kani::proof]
        fn s01_ops() {
            let (a, b): ($u, $u) = (kani::any(), kani::any());
            let n: u32 = kani::any();
            kani::assume(n < $bits);
            let (x, y) = ($U(a), $U(b));
            assert!((x + y).0 == a.wrapping_add(b), "S01 add: wrapping");
            assert!((x - y).0 == a.wrapping_sub(b), "S01 sub: wrapping");
            assert!((x & y).0 == a & b, "S01 bitand"); assert!((x | y).0 == a | b, "S01 bitor"); assert!((x ^ y).0 == a ^ b, "S01 bitxor");
            assert!((!x).0 == !a, "S01 not");
            assert!((x << n).0 == a << n, "S01 shl"); assert!((x >> n).0 == a >> n, "S01 shr");
            assert!($U::rotate_left(x, n).0 == a.rotate_left(n), "S01 rotate_left"); assert!($U::rotate_right(x, n).0 == a.rotate_right(n), "S01 rotate_right");
            let mut t = x; t += y; assert!(t.0 == a.wrapping_add(b), "S01 add_assign: wrapping");
            let mut t = x; t -= y; assert!(t.0 == a.wrapping_sub(b), "S01 sub_assign: wrapping");
            let mut t = x; t &= y; assert!(t.0 == a & b, "S01 bitand_assign"); let mut t = x; t |= y; assert!(t.0 == a | b, "S01 bitor_assign");
            let mut t = x; t ^= y; assert!(t.0 == a ^ b, "S01 bitxor_assign");
            let mut t = x; t <<= n; assert!(t.0 == a << n, "S01 shl_assign"); let mut t = x; t >>= n; assert!(t.0 == a >> n, "S01 shr_assign");
            neg!($sg $U a);
            assert!($U::zero().0 == 0 && $U::one().0 == 1 && $U::ones().0 == !0 && $U::max_value().0 == <$u>::MAX, "S01 constants");
            kani::cover!(n == $bits - 1 && a == !0, "S01 reach");
        }
        #[kani::proof]
        #[kani::solver(z3)]
        fn s01_mul() {
            let (a, b): ($u, $u) = (kani::any(), kani::any());
            assert!(($U(a) * $U(b)).0 == a.wrapping_mul(b), "S01 mul: wrapping");
            let mut t = $U(a); t *= $U(b); assert!(t.0 == a.wrapping_mul(b), "S01 mul_assign: wrapping");
            kani::cover!(a > 1 && b > 1, "S01 reach");
        }
        masks!($sg $U $u);
        #[kani::proof]
        fn s03_addsub() {
            let (a, b): ($u, $u) = (kani::any(), kani::any());
            let (x, y) = ($U(a), $U(b));
            if kani::any() {
                let (v, o) = a.overflowing_add(b); kani::assume(!o);
                kani::cover!(a != 0 && b != 0, "S03 reach add");
                assert!(x.checked_add(y).0 == v, "S03 checked_add: exact when representable");
            } else {
                let (v, o) = a.overflowing_sub(b); kani::assume(!o);
                kani::cover!(a != 0 && b != 0, "S03 reach sub");
                assert!(x.checked_sub(y).0 == v, "S03 checked_sub: exact when representable");
            }
        }
        #[kani::proof]
        #[kani::solver(z3)]
        fn s03_mul() {
            let (a, b): ($u, $u) = (kani::any(), kani::any());
            let (v, o) = a.overflowing_mul(b); kani::assume(!o);
            assert!($U(a).checked_mul($U(b)).0 == v, "S03 checked_mul: exact when representable");
            kani::cover!(a > 1 && b > 1, "S03 reach mul");
        }
        #[kani::proof]
        #[kani::should_panic]
        fn s03_panic_add() { let (a, b): ($u, $u) = (kani::any(), kani::any()); kani::assume(a.overflowing_add(b).1); $U(a).checked_add($U(b)); returned(); }
        #[kani::proof]
        #[kani::should_panic]
        fn s03_panic_sub() { let (a, b): ($u, $u) = (kani::any(), kani::any()); kani::assume(a.overflowing_sub(b).1); $U(a).checked_sub($U(b)); returned(); }
        #[kani::proof]
        #[kani::should_panic]
        #[kani::solver(z3)]
        fn s03_panic_mul() { let (a, b): ($u, $u) = (kani::any(), kani::any()); kani::assume(a.overflowing_mul(b).1); $U(a).checked_mul($U(b)); returned(); }
    } )* }
}
gen! {
    m8: U8 u8 8 unsigned; m16: U16 u16 16 unsigned; m32: U32 u32 32 unsigned; m64: U64 u64 64 unsigned; m128: U128 u128 128 unsigned;
    n8: I8 i8 8 signed; n16: I16 i16 16 signed; n32: I32 i32 32 signed; n64: I64 i64 64 signed; n128: I128 i128 128 signed;
}

macro_rules! s04 {
    ($($m:ident: $U:ident $u:ident $n:literal;)*) => { $(
        pub mod $m {
            use super::*;
            // Bounded: two integers.  (Each integer is converted on its own; the lift to any number is in the Verus part.)
            #[kani::proof]
            #[kani::unwind(35)]
            fn s04_to() {
                let v: [$u; 2] = [kani::any(), kani::any()];
                let x = [$U(v[0]), $U(v[1])];
                let le = $U::to_le_bytes(&x); let be = $U::to_be_bytes(&x);
                assert!(le.len() == 2 * $n && be.len() == 2 * $n, "S04 to_bytes: length");
                let k: usize = kani::any(); let j: usize = kani::any(); kani::assume(k < 2 && j < $n);
                assert!(le[k * $n + j].0 == (v[k] >> (8 * j as u32) % ($n * 8)) as u8, "S04 to_le_bytes: byte j is v >> 8j");
                assert!(be[k * $n + j].0 == (v[k] >> (8 * ($n - 1 - j) as u32)) as u8, "S04 to_be_bytes: byte j is v >> 8(n-1-j)");
            }
            #[kani::proof]
            #[kani::unwind(35)]
            fn s04_from() {
                let b: [u8; 2 * $n] = kani::any();
                let mut x = [U8(0); 2 * $n];
                for i in 0..2 * $n { x[i] = U8(b[i]); }
                let le = $U::from_le_bytes(&x); let be = $U::from_be_bytes(&x);
                assert!(le.len() == 2 && be.len() == 2, "S04 from_bytes: length");
                let k: usize = kani::any(); let j: usize = kani::any(); kani::assume(k < 2 && j < $n);
                assert!((le[k].0 >> (8 * j as u32)) as u8 == b[k * $n + j], "S04 from_le_bytes: byte j of the value");
                assert!((be[k].0 >> (8 * ($n - 1 - j) as u32)) as u8 == b[k * $n + j], "S04 from_be_bytes: byte j of the value");
            }
        }
    )* }
}
s04! { b8: U8 u8 1; b16: U16 u16 2; b32: U32 u32 4; b64: U64 u64 8; b128: U128 u128 16; c8: I8 i8 1; c16: I16 i16 2; c32: I32 i32 4; c64: I64 i64 8; c128: I128 i128 16; }
macro_rules! s04p { ($($m:ident: $U:ident $n:literal;)*) => { $( pub mod $m { use super::*;
    #[kani::proof] #[kani::should_panic] #[kani::unwind(35)]
    fn s04_panic_le() { let l: usize = kani::any(); kani::assume(l <= 2 * $n && l % $n != 0); let v = [U8(0); 2 * $n]; $U::from_le_bytes(&v[..l]); returned(); }
    #[kani::proof] #[kani::should_panic] #[kani::unwind(35)]
    fn s04_panic_be() { let l: usize = kani::any(); kani::assume(l <= 2 * $n && l % $n != 0); let v = [U8(0); 2 * $n]; $U::from_be_bytes(&v[..l]); returned(); }
} )* } }
s04p! { p16: U16 2; p32: U32 4; p64: U64 8; p128: U128 16; q16: I16 2; q32: I32 4; q64: I64 8; q128: I128 16; }

macro_rules! cast { ($($from:ident($fu:ident) -> $to:ident($tu:ident)),* $(,)?) => { $( { let a: $fu = kani::any(); assert!($to::from($from(a)).0 == a as $tu, concat!("S05 ", stringify!($from), " -> ", stringify!($to))); } )* } }
macro_rules! castp { ($($fu:ident -> $to:ident($tu:ident)),* $(,)?) => { $( { let a: $fu = kani::any(); assert!($to::from(a).0 == a as $tu, concat!("S05 ", stringify!($fu), " -> ", stringify!($to))); } )* } }
macro_rules! castq { ($($from:ident($fu:ident) -> $tu:ident),* $(,)?) => { $( { let a: $fu = kani::any(); assert!($tu::from($from(a)) == a as $tu, concat!("S05 ", stringify!($from), " -> ", stringify!($tu))); } )* } }
macro_rules! clas { ($($U:ident $u:ident),*) => { $( { let a: $u = kani::any(); assert!($U::classify(a).declassify() == a, concat!("S05 classify/declassify ", stringify!($U)));
    assert!(<$U as SecretInteger>::classify(a).0 == a, concat!("S05 SecretInteger::classify ", stringify!($U))); } )* } }
#[kani::proof]
fn s05_secret_to_secret() {
    cast!(U8(u8) -> U128(u128), U128(u128) -> U8(u8), U16(u16) -> U128(u128), U128(u128) -> U16(u16), U32(u32) -> U128(u128), U128(u128) -> U32(u32),
        U64(u64) -> U128(u128), U128(u128) -> U64(u64), U8(u8) -> U64(u64), U64(u64) -> U8(u8), U16(u16) -> U64(u64), U64(u64) -> U16(u16),
        U32(u32) -> U64(u64), U64(u64) -> U32(u32), U8(u8) -> U32(u32), U32(u32) -> U8(u8), U16(u16) -> U32(u32), U32(u32) -> U16(u16),
        U8(u8) -> U16(u16), U16(u16) -> U8(u8),
        I8(i8) -> I128(i128), I128(i128) -> I8(i8), I16(i16) -> I128(i128), I128(i128) -> I16(i16), I32(i32) -> I128(i128), I128(i128) -> I32(i32),
        I64(i64) -> I128(i128), I128(i128) -> I64(i64), I8(i8) -> I64(i64), I64(i64) -> I8(i8), I16(i16) -> I64(i64), I64(i64) -> I16(i16),
        I32(i32) -> I64(i64), I64(i64) -> I32(i32), I8(i8) -> I32(i32), I32(i32) -> I8(i8), I16(i16) -> I32(i32), I32(i32) -> I16(i16),
        I8(i8) -> I16(i16), I16(i16) -> I8(i8),
        U128(u128) -> I128(i128), I128(i128) -> U128(u128), U64(u64) -> I64(i64), I64(i64) -> U64(u64), U32(u32) -> I32(i32), I32(i32) -> U32(u32),
        U16(u16) -> I16(i16), I16(i16) -> U16(u16), U8(u8) -> I8(i8), I8(i8) -> U8(u8));
}
#[kani::proof]
fn s05_public() {
    castp!(usize -> U8(u8), usize -> U64(u64), usize -> U128(u128), u8 -> U16(u16), u8 -> U32(u32), u16 -> U32(u32), u8 -> U64(u64), u16 -> U64(u64),
        u32 -> U64(u64), u8 -> U128(u128), u16 -> U128(u128), u32 -> U128(u128), u64 -> U128(u128),
        u8 -> U8(u8), u16 -> U16(u16), u32 -> U32(u32), u64 -> U64(u64), u128 -> U128(u128),
        i8 -> I8(i8), i16 -> I16(i16), i32 -> I32(i32), i64 -> I64(i64), i128 -> I128(i128));
    castq!(U8(u8) -> u8, U8(u8) -> u16, U8(u8) -> u32, U8(u8) -> u64, U8(u8) -> u128, U8(u8) -> usize, U16(u16) -> u16, U16(u16) -> u32,
        U16(u16) -> u64, U16(u16) -> u128, U32(u32) -> u32, U32(u32) -> u64, U32(u32) -> u128, U64(u64) -> u64, U64(u64) -> u128, U128(u128) -> u128);
    clas!(U8 u8, U16 u16, U32 u32, U64 u64, U128 u128, I8 i8, I16 i16, I32 i32, I64 i64, I128 i128);
}
