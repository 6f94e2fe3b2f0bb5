//! H01-H04: the numeric trait on public and secret machine integers.
use super::util::*;
use hacspec::prelude::*;

/// Checks for one type T with public representation $u (mk/un convert).
macro_rules! common {
    ($T:ty, $u:ident, $bits:literal, $mk:expr, $un:expr) => {
        type T = $T;
        type P = $u;
        fn mk(x: P) -> T { ($mk)(x) }
        fn un(x: T) -> P { ($un)(x) }
        const FULL: u128 = if $bits == 128 { !0u128 } else { (1u128 << ($bits % 128)) - 1 };
        fn pat(x: P) -> u128 { (x as u128) & FULL }
        #[kani::proof]
        fn h01_bits() {
            let (a, y): (P, P) = (kani::any(), kani::any());
            let (i, j): (u32, u32) = (kani::any(), kani::any());
            let b: bool = kani::any();
            let lit: u128 = kani::any();
            kani::assume(i < $bits && j < $bits);
            assert!(pat(un(mk(a).get_bit(i))) == bit(pat(a), i), "H01 get_bit");
            let want = |b: u128| (pat(a) & !(1u128 << i)) | (b << i);
            assert!(pat(un(mk(a).set_bit(mk(b as P), i))) == want(b as u128), "H01 set_bit");
            assert!(pat(un(mk(a).set(i, mk(y), j))) == want(bit(pat(y), j)), "H01 set");
            assert!(un(Integer::rotate_left(mk(a), i)) == a.rotate_left(i), "H01 rotate_left");
            assert!(un(Integer::rotate_right(mk(a), i)) == a.rotate_right(i), "H01 rotate_right");
            assert!(pat(un(<T as Integer>::from_literal(lit))) == lit & FULL, "H01 from_literal");
            assert!(T::NUM_BITS == $bits && un(<T as Integer>::ZERO) == 0 && un(<T as Integer>::ONE) == 1 && un(<T as Integer>::TWO) == 2, "H01 constants");
            kani::cover!(i == $bits - 1 && j == 0 && b, "H01 reach");
        }
        #[kani::proof]
        fn h02_bool() {
            let (a, b): (P, P) = (kani::any(), kani::any());
            let (x, y) = (mk(a), mk(b));
            assert!(x.equal(y) == (a == b), "H02 equal"); assert!(x.greater_than(y) == (a > b), "H02 greater_than");
            assert!(x.greater_than_or_qual(y) == (a >= b), "H02 greater_than_or_qual"); assert!(x.less_than(y) == (a < b), "H02 less_than");
            assert!(x.less_than_or_equal(y) == (a <= b), "H02 less_than_or_equal");
            kani::cover!(a > b, "H02 reach");
        }
        #[kani::proof]
        fn h04_select() {
            let (a, b): (P, P) = (kani::any(), kani::any());
            let i: u32 = kani::any(); let on: bool = kani::any(); let b1: bool = kani::any();
            kani::assume(i < $bits);
            let (x, y) = (mk(a), mk(b));
            let cond = mk(if on { !0 } else { 0 });
            let (p, q) = cswap(x, y, cond);
            assert!((un(p), un(q)) == if on { (b, a) } else { (a, b) }, "H04 cswap");
            assert!(un(cadd(x, y, cond)) == if on { a.wrapping_add(b) } else { a }, "H04 cadd");
            assert!(un(csub(x, y, cond)) == if on { a.wrapping_sub(b) } else { a }, "H04 csub");
            assert!(pat(un(cset_bit(x, mk(b1 as P), i, cond))) == if on { (pat(a) & !(1u128 << i)) | ((b1 as u128) << i) } else { pat(a) }, "H04 cset_bit");
            kani::cover!(on && a != b && b1, "H04 reach");
        }
        #[kani::proof]
        fn h04_swap_bit() {
            let (a, b): (P, P) = (kani::any(), kani::any());
            let on: bool = kani::any();
            let (p, q) = cswap_bit(mk(a), mk(b), mk(on as P));
            assert!((un(p), un(q)) == if on { (b, a) } else { (a, b) }, "H04 cswap_bit");
            kani::cover!(on && a != b, "H04 reach");
        }
        #[kani::proof]
        #[kani::solver(z3)]
        fn h04_wrap_mul() {
            let (a, b): (P, P) = (kani::any(), kani::any());
            assert!(un(mk(a).wrap_mul(mk(b))) == a.wrapping_mul(b), "H04 wrap_mul");
        }
    };
}
macro_rules! public_masks {
    ($u:ident) => {
        #[kani::proof]
        fn h02_masks() {
            let (a, b): ($u, $u) = (kani::any(), kani::any());
            let f = |r: bool| -> $u { if r { !0 } else { 0 } };
            assert!(a.equal_bm(b) == f(a == b), "H02 equal_bm"); assert!(a.not_equal_bm(b) == f(a != b), "H02 not_equal_bm");
            assert!(a.greater_than_bm(b) == f(a > b), "H02 greater_than_bm"); assert!(a.greater_than_or_qual_bm(b) == f(a >= b), "H02 greater_than_or_qual_bm");
            assert!(a.less_than_bm(b) == f(a < b), "H02 less_than_bm"); assert!(a.less_than_or_equal_bm(b) == f(a <= b), "H02 less_than_or_equal_bm");
            kani::cover!(a > b, "H02 reach");
        }
    };
}
/// Unsigned modular arithmetic: exact residue, or a panic when the intermediate overflows.
macro_rules! umod {
    () => {
        #[kani::proof]
        #[kani::solver(z3)]
        #[kani::should_panic]
        fn h03_panic_add() { let (a, b, n): (P, P, P) = (kani::any(), kani::any(), kani::any()); kani::assume(n > 0 && a.overflowing_add(b).1);
            let r = un(mk(a).add_mod(mk(b), mk(n))); returned(); }
        #[kani::proof]
        #[kani::solver(z3)]
        #[kani::should_panic]
        fn h03_panic_mul() { let (a, b, n): (P, P, P) = (kani::any(), kani::any(), kani::any()); kani::assume(n > 0 && a.overflowing_mul(b).1);
            let r = un(mk(a).mul_mod(mk(b), mk(n))); returned(); }
    };
}
macro_rules! unsigned { ($($pm:ident $sm:ident: $U:ident $u:ident $bits:literal;)*) => { $(
    pub mod $pm { use super::*; common!($u, $u, $bits, |x| x, |x| x); public_masks!($u); umod!(); }
    pub mod $sm { use super::*; common!($U, $u, $bits, |x| $U(x), |x: $U| x.0); umod!();
        #[kani::proof]
        fn h01_byte() { let a: P = kani::any(); let i: u32 = kani::any(); kani::assume(i < $bits / 8);
            assert!(pat(un(mk(a).get_byte(i))) == (pat(a) >> (8 * i)) & 0xff, "H01 get_byte"); }
    }
)* } }
macro_rules! signed { ($($pm:ident $sm:ident: $U:ident $u:ident $bits:literal;)*) => { $(
    pub mod $pm { use super::*; common!($u, $u, $bits, |x| x, |x| x); public_masks!($u); }
    pub mod $sm { use super::*; common!($U, $u, $bits, |x| $U(x), |x: $U| x.0); }
)* } }
unsigned! { p8 s8: U8 u8 8; p16 s16: U16 u16 16; p32 s32: U32 u32 32; p64 s64: U64 u64 64; p128 s128: U128 u128 128; }
signed! { pi8 si8: I8 i8 8; pi16 si16: I16 i16 16; pi32 si32: I32 i32 32; pi64 si64: I64 i64 64; pi128 si128: I128 i128 128; }

/// The i128 intermediate overflows: add_mod, sub_mod and mul_mod of i128 panic.
pub mod i128_panic {
    use super::*;
    #[kani::proof] #[kani::should_panic] #[kani::solver(z3)] #[kani::unwind(3)]
    fn h03_panic_add() { let (a, b, n): (i128, i128, i128) = (kani::any(), kani::any(), kani::any()); kani::assume(n > 0 && a.overflowing_add(b).1); a.add_mod(b, n); returned(); }
    #[kani::proof] #[kani::should_panic] #[kani::solver(z3)] #[kani::unwind(3)]
    fn h03_panic_sub() { let (a, b, n): (i128, i128, i128) = (kani::any(), kani::any(), kani::any()); kani::assume(n > 0 && a.overflowing_sub(b).1); a.sub_mod(b, n); returned(); }
}
