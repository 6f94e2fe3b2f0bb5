//! Standard library contracts used by H09, for every input.
/// u8::from_str_radix(_, 16) on every two-byte string without a leading '+'.
#[kani::proof]
#[kani::unwind(4)]
fn h09_radix() {
    let b: [u8; 2] = kani::any();
    kani::assume((b[0] < 128 && b[1] < 128) || (b[0] >= 0xc2 && b[0] <= 0xdf && b[1] >= 0x80 && b[1] <= 0xbf));
    kani::assume(b[0] != b'+');
    let s = unsafe { std::str::from_utf8_unchecked(&b) };
    fn hv(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None } }
    let r = u8::from_str_radix(s, 16);
    kani::cover!(r.is_ok()); kani::cover!(r.is_err());
    match (hv(b[0]), hv(b[1])) {
        (Some(x), Some(y)) => assert!(r == Ok(16 * x + y), "std from_str_radix"),
        _ => assert!(r.is_err(), "std from_str_radix"),
    }
}
/// Widening of a byte to the element types, and the size of an element, as the extraction reads them.
#[kani::proof]
fn h09_elem() {
    let x: u8 = kani::any();
    assert!(<hacspec::prelude::U8>::from(x).0 == x && <u8>::from(x) == x && hacspec::prelude::U8::classify(x).0 == x);
    assert!(std::mem::size_of::<hacspec::prelude::U8>() == 1);
}
#[kani::proof]
#[kani::unwind(8)]
fn h09_format() {
    let x: u8 = kani::any();
    let s = format!("{:02x}", x);
    let d = b"0123456789abcdef";
    assert!(format!("{:02x}", hacspec::prelude::U8(x)) == s, "LowerHex of U8");
    assert!(s.as_bytes() == [d[(x / 16) as usize], d[(x % 16) as usize]]);
}
