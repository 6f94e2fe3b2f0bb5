//! Contracts that the Verus units assume of the standard library, discharged here for every input.
macro_rules! std_int { ($m:ident, $t:ident, $i:ident, $n:literal) => { pub mod $m {
    #[kani::proof]
    fn std_bytes() {
        let x: $t = kani::any();
        let (le, be) = (x.to_le_bytes(), x.to_be_bytes());
        let j: usize = kani::any(); kani::assume(j < $n);
        assert!(le[j] == (x >> (8 * j)) as u8, "std to_le_bytes");
        assert!(be[j] == (x >> (8 * ($n - 1 - j))) as u8, "std to_be_bytes");
        assert!($t::from_le_bytes(le) == x && $t::from_be_bytes(be) == x, "std from_bytes");
        let tr = unsafe { std::mem::transmute::<$t, [u8; $n]>(x.to_le()) };
        let tb = unsafe { std::mem::transmute::<$t, [u8; $n]>(x.to_be()) };
        assert!(tr == le && tb == be, "std transmute");
        assert!(unsafe { std::mem::transmute::<[u8; $n], $t>(le).to_le() } == x, "std transmute");
        assert!(unsafe { std::mem::transmute::<[u8; $n], $t>(be).to_be() } == x, "std transmute");
        let ti = unsafe { std::mem::transmute::<$i, [u8; $n]>((x as $i).to_le()) };
        let tj = unsafe { std::mem::transmute::<$i, [u8; $n]>((x as $i).to_be()) };
        assert!(ti == le && tj == be, "std transmute of signed integers");
        assert!(unsafe { std::mem::transmute::<[u8; $n], $i>(le).to_le() } == x as $i, "std transmute");
        assert!(unsafe { std::mem::transmute::<[u8; $n], $i>(be).to_be() } == x as $i, "std transmute");
    }
    #[kani::proof]
    fn std_rot() {
        let x: $t = kani::any(); let n: u32 = kani::any(); kani::assume(n < $t::BITS);
        assert!(x.rotate_left(n) == if n == 0 { x } else { (x << n) | (x >> ($t::BITS - n)) }, "std rotate_left");
        assert!(x.rotate_right(n) == if n == 0 { x } else { (x >> n) | (x << ($t::BITS - n)) }, "std rotate_right");
    }
} } }
std_int!(t8, u8, i8, 1);
std_int!(t16, u16, i16, 2);
std_int!(t32, u32, i32, 4);
std_int!(t64, u64, i64, 8);
std_int!(t128, u128, i128, 16);
