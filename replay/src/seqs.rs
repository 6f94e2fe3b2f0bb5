//! H05-H09 (sequences, arrays, conversions, vectors, hex) and P01 (polynomials).
use crate::rng::*;
use crate::{attempt, Ctx, F, R};
use hacspec::prelude::*;
use num::bigint::{BigInt, Sign};

bytes!(By13, 13);
bytes!(By16, 16);
bytes!(By48, 48);
public_bytes!(Pb13, 13);
public_bytes!(Pb48, 48);
array!(Aw7, 7, u32);
array!(As9, 9, U64);
array!(S16A, 5, U16);
array!(S32A, 5, U32);
array!(S64A, 3, U64);
array!(S128A, 3, U128);
array!(P16A, 5, u16);
array!(P64A, 3, u64);
array!(P128A, 3, u128);
generic_array!(Ga11, 11);
bytes!(By300, 300);
public_bytes!(Pb300, 300);
array!(Aw1030, 1030, u32);
array!(As4100, 4100, U64);
array!(S16L, 300, U16);
array!(S32L, 1030, U32);
array!(S128L, 300, U128);
array!(P16L, 300, u16);
array!(P64L, 4100, u64);
array!(P128L, 300, u128);
generic_array!(Ga300, 300);

trait El: Copy + Default { fn mk(x: u64) -> Self; fn un(self) -> u64; }
macro_rules! el { ($($p:ident $s:ident),*) => { $( impl El for $p { fn mk(x: u64) -> Self { x as $p } fn un(self) -> u64 { self as u64 } }
    impl El for $s { fn mk(x: u64) -> Self { $s(x as _) } fn un(self) -> u64 { self.0 as u64 } } )* } }
el!(u8 U8, u16 U16, u32 U32, u64 U64, i32 I32);

fn elems<T: El>(c: &mut Ctx, n: usize) -> Vec<u64> { (0..n).map(|_| T::mk(c.rng.u64()).un()).collect() }
fn ls<T: El, S: SeqTrait<T>>(s: &S) -> Vec<u64> where T: Copy { (0..SeqTrait::len(s)).map(|i| s[i].un()).collect() }
/// (start, len), mostly inside `n`, sometimes just outside
fn range(c: &mut Ctx, n: usize) -> (usize, usize) {
    let s = c.rng.below(n as u64 + 1) as usize;
    let l = match c.rng.below(5) { 0 => n - s, 1 => n - s + 1 + c.rng.below(3) as usize, 2 => 0, _ => c.rng.below((n - s) as u64 + 1) as usize };
    (s, l)
}
fn chk<X: std::fmt::Debug + PartialEq>(got: Option<X>, want: Option<X>, what: &str) -> R {
    if got != want { return Err(format!("{}: got {:x?}, expected {:x?} (None: panic)", what, got, want)); }
    Ok(())
}
fn upd(a: &[u64], at: usize, v: &[u64], from: usize, n: usize) -> Option<Vec<u64>> {
    if at + n > a.len() || from + n > v.len() { return None; }
    let mut o = a.to_vec();
    o[at..at + n].copy_from_slice(&v[from..from + n]);
    Some(o)
}
/// The SeqTrait operations, with a second sequence type as the source.
fn seqtrait<T: El, S: SeqTrait<T>, V: SeqTrait<T>>(c: &mut Ctx, mk: &dyn Fn(&[u64]) -> S, mkv: &dyn Fn(&[u64]) -> V, a: &[u64], v: &[u64]) -> R {
    let (at, _) = range(c, a.len());
    let (from, n) = range(c, v.len());
    let n = if c.rng.bool() { n.min(a.len() - at) } else { n };
    c.note(format!("a={:x?} v={:x?} at={} from={} n={}", a, v, at, from, n));
    eq!(ls(&mk(a)), a.to_vec(), "construction");
    eq!(mk(a).iter().map(|x| x.un()).collect::<Vec<_>>(), a.to_vec(), "iter");
    eq!(SeqTrait::len(&mk(a)), a.len(), "len");
    eq!(ls(&S::create(a.len())), vec![0; a.len()], "create");
    chk(attempt(|| ls(&mk(a).update_sub(at, &mkv(v), from, n))), upd(a, at, v, from, n), "update_sub")?;
    chk(attempt(|| ls(&mk(a).update(at, &mkv(v)))), upd(a, at, v, 0, v.len()), "update")?;
    chk(attempt(|| ls(&mk(a).update_start(&mkv(v)))), upd(a, 0, v, 0, v.len()), "update_start")?;
    Ok(())
}
macro_rules! seq_ops { ($f:ident, $h6:ident, $n:ident, $t:ty) => {
    fn $f(c: &mut Ctx) -> R {
        let n = c.rng.len(8, 40);
        let m = if n > 90 && c.rng.bool() { n - c.rng.below(30) as usize } else { c.rng.len(8, 40) };
        let (a, v) = (elems::<$t>(c, n), elems::<$t>(c, m));
        c.note(format!("{}<{}>", stringify!($n), stringify!($t)));
        let mk = |x: &[u64]| $n::<$t>::from_vec(x.iter().map(|y| <$t as El>::mk(*y)).collect());
        let sl: Vec<$t> = a.iter().map(|y| <$t as El>::mk(*y)).collect();
        eq!(ls(&$n::<$t>::from_slice(&sl)), a, "from_slice");
        eq!(ls(&$n::<$t>::from_seq(&mk(&a))), a, "from_seq");
        eq!(ls(&$n::<$t>::new(n)), vec![0u64; n], "new");
        let (s, l) = range(c, n);
        let want = if s + l <= n { Some(a[s..s + l].to_vec()) } else { None };
        c.note(format!("sub {} {}", s, l));
        chk(attempt(|| ls(&(&mk(&a)).sub(s, l))), want.clone(), "sub")?;
        chk(attempt(|| ls(&mk(&a).subr(s..s + l))), want.clone(), "subr")?;
        chk(attempt(|| ls(&$n::<$t>::from_sub(&mk(&a), s, l))), want.clone(), "from_sub")?;
        chk(attempt(|| ls(&$n::<$t>::from_sub_range(&mk(&a), s..s + l))), want, "from_sub_range")?;
        let i = if n > 45 && c.rng.bool() { c.rng.below(n as u64 + 3) as usize } else { c.rng.below(45) as usize };
        let at = a.get(i).cloned();
        let neg = -1 - (c.rng.word(31) & 0x7fff_ffff) as i32;
        must_panic!(mk(&a)[neg].un(), "index {}", neg);
        chk(attempt(|| mk(&a)[i].un()), at, "index usize")?;
        if i < 256 { chk(attempt(|| mk(&a)[i as u8].un()), at, "index u8")?; }
        chk(attempt(|| mk(&a)[i as u32].un()), at, "index u32")?;
        chk(attempt(|| mk(&a)[i as i32].un()), at, "index i32")?;
        chk(attempt(|| mk(&a)[s..s + l].iter().map(|x| x.un()).collect::<Vec<_>>()), if s + l <= n { Some(a[s..s + l].to_vec()) } else { None }, "index range")?;
        let x = <$t as El>::mk(c.rng.u64());
        let w = upd(&a, i, &[x.un()], 0, 1);
        chk(attempt(|| { let mut q = mk(&a); q[i] = x; ls(&q) }), w.clone(), "assign usize")?;
        chk(attempt(|| { let mut q = mk(&a); q[i as u8] = x; ls(&q) }), if i < 256 { w.clone() } else { upd(&a, i & 255, &[x.un()], 0, 1) }, "assign u8")?;
        chk(attempt(|| { let mut q = mk(&a); q[i as u32] = x; ls(&q) }), w.clone(), "assign u32")?;
        chk(attempt(|| { let mut q = mk(&a); q[i as i32] = x; ls(&q) }), w, "assign i32")?;
        seqtrait::<$t, _, _>(c, &mk, &mk, &a, &v)
    }
    fn $h6(c: &mut Ctx) -> R {
        let n = c.rng.len(8, 60);
        let a = elems::<$t>(c, n);
        let mk = |x: &[u64]| $n::<$t>::from_vec(x.iter().map(|y| <$t as El>::mk(*y)).collect());
        let mx = if c.rng.bool() { 10 } else { 70 };
        let s = if let Some(l) = c.rng.lit_len(4, 5000) { l.max(1) } else { 1 + c.rng.below(mx) as usize };
        c.note(format!("{}<{}> len={} chunk={}", stringify!($n), stringify!($t), n, s));
        eq!(mk(&a).num_chunks(s), (n + s - 1) / s, "num_chunks");
        let mut all = vec![];
        for (i, ch) in a.chunks(s).enumerate() {
            let (l, q) = val!(mk(&a).get_chunk(s, i), "get_chunk");
            eq!((l, ls(&q)), (ch.len(), ch.to_vec()), "get_chunk {}", i);
            all.extend(ls(&q));
            let new = elems::<$t>(c, l);
            eq!(ls(&val!(mk(&a).set_chunk(s, i, &mk(&new)), "set_chunk")), upd(&a, i * s, &new, 0, l).unwrap(), "set_chunk {}", i);
            let mut bad = new.clone();
            if l > 0 && c.rng.bool() { bad.pop(); } else { bad.push(1); }
            must_panic!(mk(&a).set_chunk(s, i, &mk(&bad)).len(), "set_chunk with another length");
        }
        eq!(all, a, "concatenation of the chunks");
        Ok(())
    }
} }
macro_rules! arr_ops { ($f:ident, $h6:ident, $n:ident $(<$g:ty>)?, $l:literal, $t:ty) => {
    fn $f(c: &mut Ctx) -> R {
        const N: usize = $l;
        type A = $n $(<$g>)?;
        let mm = if c.rng.bool() { 20 } else { N + 9 };
        let m = c.rng.len(8, mm);
        let (a, v) = (elems::<$t>(c, N), elems::<$t>(c, m));
        c.note(format!("{} a={:x?}", stringify!($n), a));
        let raw = |x: &[u64]| x.iter().map(|y| <$t as El>::mk(*y)).collect::<Vec<$t>>();
        let mk = |x: &[u64]| A::from_vec(raw(x));
        let mks = |x: &[u64]| Seq::<$t>::from_vec(raw(x));
        let mut ra: [$t; N] = [<$t as El>::mk(0); N];
        ra.copy_from_slice(&raw(&a));
        eq!(ls(&A::from_array(ra)), a, "from_array");
        eq!(ls(&A::new()), vec![0u64; N], "new");
        eq!(ls(&A::default()), vec![0u64; N], "default");
        eq!((A::capacity(), mk(&a).len()), (N, N), "capacity, len");
        let mut padded = v.clone(); padded.resize(N.max(v.len()), 0);
        chk(attempt(|| ls(&A::from_slice(&raw(&v)))), if m <= N { Some(padded) } else { None }, "from_slice")?;
        chk(attempt(|| ls(&A::from_vec(raw(&v)))), if m == N { Some(v.clone()) } else { None }, "from_vec")?;
        chk(attempt(|| ls(&A::from_seq(&mks(&v)))), if m == N { Some(v.clone()) } else { None }, "from_seq")?;
        let wl = N + 7;
        let w = elems::<$t>(c, wl);
        let (s, l) = (c.rng.below(11) as usize, if c.rng.below(3) == 0 { c.rng.below(wl as u64) as usize } else { N });
        let want = if l == N && s + l <= wl { Some(w[s..s + l].to_vec()) } else { None };
        c.note(format!("v={:x?} from_sub {} {}", v, s, l));
        chk(attempt(|| ls(&A::from_sub(&mks(&w), s, l))), want.clone(), "from_sub")?;
        chk(attempt(|| ls(&A::from_sub_range(&mks(&w), s..s + l))), want, "from_sub_range")?;
        let (s, l) = range(c, N);
        let want = if s + l <= N { Some(a[s..s + l].to_vec()) } else { None };
        chk(attempt(|| ls(&(&mk(&a)).sub(s, l))), want.clone(), "sub")?;
        chk(attempt(|| ls(&mk(&a).subr(s..s + l))), want, "subr")?;
        let i = c.rng.below(N as u64 + 3) as usize;
        let at = a.get(i).cloned();
        let neg = -1 - (c.rng.word(31) & 0x7fff_ffff) as i32;
        must_panic!(mk(&a)[neg].un(), "index {}", neg);
        chk(attempt(|| mk(&a)[i].un()), at, "index usize")?;
        if i < 256 { chk(attempt(|| mk(&a)[i as u8].un()), at, "index u8")?; }
        chk(attempt(|| mk(&a)[i as u32].un()), at, "index u32")?;
        chk(attempt(|| mk(&a)[i as i32].un()), at, "index i32")?;
        eq!(mk(&a)[..].iter().map(|x| x.un()).collect::<Vec<_>>(), a, "index ..");
        let x = <$t as El>::mk(c.rng.u64());
        let w = upd(&a, i, &[x.un()], 0, 1);
        chk(attempt(|| { let mut q = mk(&a); q[i] = x; ls(&q) }), w.clone(), "assign usize")?;
        chk(attempt(|| { let mut q = mk(&a); q[i as u8] = x; ls(&q) }), if i < 256 { w.clone() } else { upd(&a, i & 255, &[x.un()], 0, 1) }, "assign u8")?;
        chk(attempt(|| { let mut q = mk(&a); q[i as u32] = x; ls(&q) }), w.clone(), "assign u32")?;
        chk(attempt(|| { let mut q = mk(&a); q[i as i32] = x; ls(&q) }), w, "assign i32")?;
        must_panic!(A::create(N + 1 + c.rng.below(3) as usize).len(), "create with another length");
        seqtrait::<$t, _, _>(c, &mk, &mks, &a, &v)
    }
    fn $h6(c: &mut Ctx) -> R {
        const N: usize = $l;
        type A = $n $(<$g>)?;
        let a = elems::<$t>(c, N);
        let raw = |x: &[u64]| x.iter().map(|y| <$t as El>::mk(*y)).collect::<Vec<$t>>();
        let mk = |x: &[u64]| A::from_vec(raw(x));
        let s = 1 + c.rng.below(N as u64 + 3) as usize;
        let s = if N / s > 50 { N / 50 } else { s };
        c.note(format!("{} {:x?} chunk={}", stringify!($n), a, s));
        eq!(mk(&a).num_chunks(s), (N + s - 1) / s, "num_chunks");
        for (i, ch) in a.chunks(s).enumerate() {
            eq!(val!(mk(&a).get_chunk_len(s, i), "get_chunk_len"), ch.len(), "get_chunk_len {}", i);
            let (l, q) = val!(mk(&a).get_chunk(s, i), "get_chunk");
            eq!((l, ls(&q)), (ch.len(), ch.to_vec()), "get_chunk {}", i);
            let new = elems::<$t>(c, l);
            eq!(ls(&val!(mk(&a).set_chunk(s, i, &Seq::<$t>::from_vec(raw(&new))), "set_chunk")), upd(&a, i * s, &new, 0, l).unwrap(), "set_chunk {}", i);
            let mut bad = new.clone();
            if l > 0 && c.rng.bool() { bad.pop(); } else { bad.push(1); }
            must_panic!(mk(&a).set_chunk(s, i, &Seq::<$t>::from_vec(raw(&bad))).len(), "set_chunk with another length");
        }
        Ok(())
    }
} }
seq_ops!(h5a, h6a, Seq, U8);
seq_ops!(h5b, h6b, Seq, u32);
seq_ops!(h5c, h6c, PublicSeq, u16);
seq_ops!(h5d, h6d, SecretSeq, U64);
arr_ops!(h5e, h6e, By13, 13, U8);
arr_ops!(h5f, h6f, Pb13, 13, u8);
arr_ops!(h5g, h6g, Aw7, 7, u32);
arr_ops!(h5h, h6h, As9, 9, U64);
arr_ops!(h5i, h6i, Ga11<U32>, 11, U32);
arr_ops!(h5j, h6j, By300, 300, U8);
arr_ops!(h5k, h6k, Pb300, 300, u8);
arr_ops!(h5l, h6l, Aw1030, 1030, u32);
arr_ops!(h5m, h6m, As4100, 4100, U64);
arr_ops!(h5n, h6n, Ga300<U32>, 300, U32);

macro_rules! h07_free { ($a:ident, $le:ident, $be:ident, $u:ident, $U:ident, ) => {};
    ($a:ident, $le:ident, $be:ident, $u:ident, $U:ident, $f1:ident, $f2:ident, $f3:ident, $f4:ident, $g1:ident, $g2:ident, $g3:ident, $g4:ident, $SW:ident, $pw:ident) => {
        eq!($f1($a).0.to_vec(), $le, stringify!($f1)); eq!($f2($a).0.to_vec(), $be, stringify!($f2));
        eq!($f3($pw::from_slice(&$le)), $a, stringify!($f3)); eq!($f4($pw::from_slice(&$be)), $a, stringify!($f4));
        eq!($g1($U($a)).0.iter().map(|x| x.0).collect::<Vec<u8>>(), $le, stringify!($g1));
        eq!($g2($U($a)).0.iter().map(|x| x.0).collect::<Vec<u8>>(), $be, stringify!($g2));
        eq!($g3($SW::from_public_slice(&$le)).0, $a, stringify!($g3)); eq!($g4($SW::from_public_slice(&$be)).0, $a, stringify!($g4));
    } }
fn h07_words(c: &mut Ctx) -> R {
    macro_rules! w { ($($u:ident $U:ident $b:literal [$($f:ident),*];)*) => { $( {
        let a = c.rng.word($b) as $u;
        c.note(format!("{} {:#x}", stringify!($u), a));
        let (le, be) = (a.to_le_bytes().to_vec(), a.to_be_bytes().to_vec());
        let u8s = |s: &Seq<U8>| (0..s.len()).map(|i| s[i].0).collect::<Vec<u8>>();
        let p8s = |s: &Seq<u8>| (0..s.len()).map(|i| s[i]).collect::<Vec<u8>>();
        eq!(u8s(&UnsignedSecretInteger::to_le_bytes($U(a))), le, "{} to_le_bytes", stringify!($U));
        eq!(u8s(&UnsignedSecretInteger::to_be_bytes($U(a))), be, "{} to_be_bytes", stringify!($U));
        eq!(p8s(&UnsignedPublicInteger::to_le_bytes(a)), le, "{} to_le_bytes", stringify!($u));
        eq!(p8s(&UnsignedPublicInteger::to_be_bytes(a)), be, "{} to_be_bytes", stringify!($u));
        let (sle, sbe) = (Seq::<U8>::from_public_slice(&le), Seq::<U8>::from_public_slice(&be));
        eq!(<$U as UnsignedSecretInteger>::from_le_bytes(&sle).0, a, "{} from_le_bytes", stringify!($U));
        eq!(<$U as UnsignedSecretInteger>::from_be_bytes(&sbe).0, a, "{} from_be_bytes", stringify!($U));
        eq!(<$u as UnsignedPublicInteger>::from_le_bytes(&Seq::from_vec(le.clone())), a, "{} from_le_bytes", stringify!($u));
        eq!(<$u as UnsignedPublicInteger>::from_be_bytes(&Seq::from_vec(be.clone())), a, "{} from_be_bytes", stringify!($u));
        h07_free!(a, le, be, $u, $U, $($f),*);
    } )* } }
    w!(u8 U8 8 []; u16 U16 16 [u16_to_le_bytes, u16_to_be_bytes, u16_from_le_bytes, u16_from_be_bytes, U16_to_le_bytes, U16_to_be_bytes, U16_from_le_bytes, U16_from_be_bytes, U16Word, u16Word];
        u32 U32 32 [u32_to_le_bytes, u32_to_be_bytes, u32_from_le_bytes, u32_from_be_bytes, U32_to_le_bytes, U32_to_be_bytes, U32_from_le_bytes, U32_from_be_bytes, U32Word, u32Word];
        u64 U64 64 [u64_to_le_bytes, u64_to_be_bytes, u64_from_le_bytes, u64_from_be_bytes, U64_to_le_bytes, U64_to_be_bytes, U64_from_le_bytes, U64_from_be_bytes, U64Word, u64Word];
        u128 U128 128 [u128_to_le_bytes, u128_to_be_bytes, u128_from_le_bytes, u128_from_be_bytes, U128_to_le_bytes, U128_to_be_bytes, U128_from_le_bytes, U128_from_be_bytes, U128Word, u128Word];);
    Ok(())
}
fn h07_arrays(c: &mut Ctx) -> R {
    let b = c.rng.rbytes(48);
    c.note(format!("bytes {}", hex(&b)));
    let (s, p) = (By48::from_public_slice(&b), Pb48::from_slice(&b));
    macro_rules! t { ($($w:ident $n:literal: $sb:ident $sl:ident $pb:ident $pl:ident;)*) => { $( {
        let f = |x: &[u8], be: bool| x.chunks($n).map(|k| k.iter().enumerate().fold(0u128, |a, (i, y)| a | (*y as u128) << (8 * if be { $n - 1 - i } else { i }))).collect::<Vec<u128>>();
        let q = s.$sb(); eq!((0..q.len()).map(|i| q[i].0 as u128).collect::<Vec<_>>(), f(&b, true), stringify!($sb));
        let q = s.$sl(); eq!((0..q.len()).map(|i| q[i].0 as u128).collect::<Vec<_>>(), f(&b, false), stringify!($sl));
        let q = p.$pb(); eq!((0..q.len()).map(|i| q[i] as u128).collect::<Vec<_>>(), f(&b, true), stringify!($pb));
        let q = p.$pl(); eq!((0..q.len()).map(|i| q[i] as u128).collect::<Vec<_>>(), f(&b, false), stringify!($pl));
    } )* } }
    t!(u32 4: to_be_U32s to_le_U32s to_be_u32s to_le_u32s; u64 8: to_be_U64s to_le_U64s to_be_u64s to_le_u64s; u128 16: to_U128s_be to_U128s_le to_u128s_be to_u128s_le;);
    macro_rules! a { ($($n:ident $u:ident $U:ident $l:literal;)*) => { $( {
        let v: Vec<$u> = (0..$l).map(|_| c.rng.u128() as $u).collect();
        let x = $n::from_vec(v.iter().map(|y| $U(*y)).collect());
        let q = x.to_le_bytes(); eq!((0..q.len()).map(|i| q[i].0).collect::<Vec<u8>>(), v.iter().flat_map(|y| y.to_le_bytes().to_vec()).collect::<Vec<u8>>(), "{}::to_le_bytes {:x?}", stringify!($n), v);
        let q = x.to_be_bytes(); eq!((0..q.len()).map(|i| q[i].0).collect::<Vec<u8>>(), v.iter().flat_map(|y| y.to_be_bytes().to_vec()).collect::<Vec<u8>>(), "{}::to_be_bytes {:x?}", stringify!($n), v);
    } )* } }
    a!(S16A u16 U16 5; S32A u32 U32 5; S64A u64 U64 3; S128A u128 U128 3; By13 u8 U8 13;);
    if c.rng.below(8) == 0 { a!(S16L u16 U16 300; S32L u32 U32 1030; As4100 u64 U64 4100; S128L u128 U128 300; By300 u8 U8 300;); }
    Ok(())
}
fn h08_arr(c: &mut Ctx) -> R {
    macro_rules! a { ($($n:ident $t:ident $u:ident $l:literal;)*) => { $( {
        let (x, y): (Vec<u128>, Vec<u128>) = ((0..$l).map(|_| c.rng.word(<$u>::NUM_BITS)).collect(), (0..$l).map(|_| c.rng.word(<$u>::NUM_BITS)).collect());
        let mk = |v: &[u128]| $n::from_vec(v.iter().map(|y| <$t>::from(*y as $u)).collect());
        let un = |q: $n| (0..$l).map(|i| <$u>::from(q[i])).collect::<Vec<$u>>();
        let w = |f: fn($u, $u) -> $u| x.iter().zip(&y).map(|(p, q)| f(*p as $u, *q as $u)).collect::<Vec<$u>>();
        c.note(format!("{} {:x?} {:x?}", stringify!($n), x, y));
        eq!(un(mk(&x) + mk(&y)), w(|p, q| p.wrapping_add(q)), "+"); eq!(un(mk(&x) - mk(&y)), w(|p, q| p.wrapping_sub(q)), "-");
        eq!(un(mk(&x) * mk(&y)), w(|p, q| p.wrapping_mul(q)), "*"); eq!(un(mk(&x) ^ mk(&y)), w(|p, q| p ^ q), "^");
        eq!(un(mk(&x).wrap_add(mk(&y))), w(|p, q| p.wrapping_add(q)), "wrap_add"); eq!(un(mk(&x).wrap_sub(mk(&y))), w(|p, q| p.wrapping_sub(q)), "wrap_sub");
        eq!(un(mk(&x).wrap_mul(mk(&y))), w(|p, q| p.wrapping_mul(q)), "wrap_mul");
    } )* } }
    let many = if c.rng.below(8) == 0 { 9 } else { 5 };
    match c.rng.below(many) {
        5 => { a!(By300 U8 u8 300; S16L U16 u16 300;); }
        6 => { a!(S32L U32 u32 1030; As4100 U64 u64 4100;); }
        7 => { a!(S128L U128 u128 300; Pb300 u8 u8 300;); }
        8 => { a!(P16L u16 u16 300; Aw1030 u32 u32 1030; P64L u64 u64 4100; P128L u128 u128 300;); }
        0 => { a!(By13 U8 u8 13; S16A U16 u16 5;); }
        1 => { a!(S32A U32 u32 5; S64A U64 u64 3;); }
        2 => { a!(S128A U128 u128 3; Pb13 u8 u8 13;); }
        3 => { a!(P16A u16 u16 5; Aw7 u32 u32 7;); }
        _ => { a!(P64A u64 u64 3; P128A u128 u128 3;); }
    }
    Ok(())
}
fn h08_seq(c: &mut Ctx) -> R {
    macro_rules! t { ($u:ident) => { {
        let n = c.rng.len(4, 12);
        let m = if c.rng.below(4) == 0 { c.rng.below(13) as usize } else { n };
        let x: Vec<$u> = (0..n).map(|_| c.rng.word(<$u>::NUM_BITS) as $u).collect();
        let y: Vec<$u> = (0..m).map(|_| c.rng.word(<$u>::NUM_BITS) as $u).collect();
        c.note(format!("PublicSeq<{}> {:x?} {:x?}", stringify!($u), x, y));
        let mk = |v: &[$u]| PublicSeq::<$u>::from_slice(v);
        let un = |q: PublicSeq<$u>| (0..q.len()).map(|i| q[i]).collect::<Vec<$u>>();
        let w = |f: fn($u, $u) -> $u| if n == m { Some(x.iter().zip(&y).map(|(p, q)| f(*p, *q)).collect::<Vec<$u>>()) } else { None };
        chk(attempt(|| un(mk(&x) + mk(&y))), w(|p, q| p.wrapping_add(q)), "+")?;
        chk(attempt(|| un(mk(&x) - mk(&y))), w(|p, q| p.wrapping_sub(q)), "-")?;
        chk(attempt(|| un(mk(&x) * mk(&y))), w(|p, q| p.wrapping_mul(q)), "*")?;
        chk(attempt(|| un(mk(&x) ^ mk(&y))), w(|p, q| p ^ q), "^")?;
    } } }
    match c.rng.below(4) { 0 => t!(u8), 1 => t!(u128), 2 => t!(i16), _ => t!(i64) }
    let n = c.rng.len(4, 12);
    let md = (1 + c.rng.below(1 << 30)) as u64;
    let x: Vec<u64> = (0..n).map(|_| c.rng.below(1 << 32)).collect();
    let y: Vec<u64> = (0..n).map(|_| c.rng.below(1 << 32)).collect();
    c.note(format!("mod {} {:?} {:?}", md, x, y));
    let big = |f: fn(i128, i128) -> i128| x.iter().zip(&y).map(|(p, q)| f(*p as i128, *q as i128).rem_euclid_(md as i128) as u64).collect::<Vec<u64>>();
    let un = |q: Seq<u64>| (0..q.len()).map(|i| q[i]).collect::<Vec<u64>>();
    let mk = |v: &[u64]| Seq::<u64>::from_slice(v);
    eq!(un(vec_poly_add(mk(&x), mk(&y), md)), big(|a, b| a + b), "vec_poly_add");
    eq!(un(vec_poly_sub(mk(&x), mk(&y), md)), big(|a, b| a - b), "vec_poly_sub");
    eq!(un(vec_poly_mul(mk(&x), mk(&y), md)), big(|a, b| a * b), "vec_poly_mul");
    let us = |q: Seq<U64>| (0..q.len()).map(|i| q[i].0).collect::<Vec<u64>>();
    let ms = |v: &[u64]| Seq::<U64>::from_vec(v.iter().map(|x| U64(*x)).collect());
    eq!(us(vec_poly_add(ms(&x), ms(&y), U64(md))), big(|a, b| a + b), "vec_poly_add secret");
    eq!(us(vec_poly_sub(ms(&x), ms(&y), U64(md))), big(|a, b| a - b), "vec_poly_sub secret");
    eq!(us(vec_poly_mul(ms(&x), ms(&y), U64(md))), big(|a, b| a * b), "vec_poly_mul secret");
    Ok(())
}
trait RemE { fn rem_euclid_(self, n: Self) -> Self; }
impl RemE for i128 { fn rem_euclid_(self, n: i128) -> i128 { ((self % n) + n) % n } }
fn h09(c: &mut Ctx) -> R {
    let n = c.rng.len(8, 60);
    let b = c.rng.bytes(n);
    c.note(format!("bytes {}", hex(&b)));
    let h = hex(&b);
    let up: String = h.chars().map(|x| if c.rng.bool() { x.to_ascii_uppercase() } else { x }).collect();
    let s = Seq::<U8>::from_public_slice(&b);
    let p = PublicSeq::<u8>::from_slice(&b);
    eq!(s.to_hex(), h, "Seq::to_hex"); eq!(p.to_hex(), h, "PublicSeq::to_hex");
    let us = |q: &Seq<U8>| (0..q.len()).map(|i| q[i].0).collect::<Vec<u8>>();
    let ps = |q: &PublicSeq<u8>| (0..q.len()).map(|i| q[i]).collect::<Vec<u8>>();
    for t in [&h, &up].iter() {
        eq!(us(&Seq::<U8>::from_hex(t)), b, "Seq::from_hex"); eq!(us(&Seq::<U8>::from_string(t.to_string())), b, "Seq::from_string");
        eq!(ps(&PublicSeq::<u8>::from_hex(t)), b, "PublicSeq::from_hex"); eq!(ps(&PublicSeq::<u8>::from_string(t.to_string())), b, "PublicSeq::from_string");
    }
    let a = c.rng.rbytes(13);
    let (x, y) = (By13::from_public_slice(&a), Pb13::from_slice(&a));
    eq!(x.to_hex(), hex(&a), "array to_hex"); eq!(y.to_hex(), hex(&a), "public array to_hex");
    eq!(By13::from_hex(&hex(&a)).0.iter().map(|x| x.0).collect::<Vec<_>>(), a, "array from_hex");
    eq!(Pb13::from_hex(&hex(&a).to_uppercase()).0.to_vec(), a, "public array from_hex");
    if c.rng.below(4) == 0 {
        let a = c.rng.rbytes(300);
        let (x, y) = (By300::from_public_slice(&a), Pb300::from_slice(&a));
        eq!(x.to_hex(), hex(&a), "array to_hex"); eq!(y.to_hex(), hex(&a), "public array to_hex");
        eq!(By300::from_hex(&hex(&a)).0.iter().map(|x| x.0).collect::<Vec<_>>(), a, "array from_hex");
        eq!(Pb300::from_hex(&hex(&a).to_uppercase()).0.to_vec(), a, "public array from_hex");
    }
    let mut bad: Vec<u8> = hex(&a).into_bytes();
    let i = c.rng.below(26) as usize;
    let odd = c.rng.below(5) == 0;
    let wide = !odd && c.rng.below(4) == 0;
    if odd { bad.pop(); } else if wide {
        // a character of two, three or four bytes at any position
        let ch = *["\u{e9}", "\u{661}", "\u{ff11}", "\u{1d7d8}"].get(c.rng.below(4) as usize).unwrap();
        let at = i.min(26 - ch.len());
        bad.splice(at..at + ch.len(), ch.bytes());
    } else { bad[i] = *b"gG+-/: @`zxX_\x7f\0".get(c.rng.below(15) as usize).unwrap(); }
    let t = String::from_utf8(bad).unwrap();
    c.note(format!("bad string {:?}", t));
    must_panic!(Seq::<U8>::from_hex(&t), "Seq::from_hex"); must_panic!(Seq::<U8>::from_string(t.clone()), "Seq::from_string");
    must_panic!(PublicSeq::<u8>::from_hex(&t), "PublicSeq::from_hex"); must_panic!(PublicSeq::<u8>::from_string(t.clone()), "PublicSeq::from_string");
    must_panic!(By13::from_hex(&t), "array from_hex"); must_panic!(Pb13::from_hex(&t), "public array from_hex");
    // well-formed text inside something else
    let ext = *["  ", "0x", "0X", "\n\n", " \n", "\t", " ", "\n", "\r\n", "--", "+", "-", "h", "::", "__", "\0\0", "\"\"", "\u{feff}", "\u{a0}", ",", "#", "//"].get(c.rng.below(22) as usize).unwrap();
    let w = if c.rng.bool() { &h } else { &up };
    for t in [format!("{}{}", ext, w), format!("{}{}", w, ext), format!("{}{}{}", ext, w, ext)].iter() {
        c.note(format!("not hexadecimal {:?}", if t.len() < 200 { t } else { ext }));
        must_panic!(Seq::<U8>::from_hex(t), "Seq::from_hex"); must_panic!(Seq::<U8>::from_string(t.clone()), "Seq::from_string");
        must_panic!(PublicSeq::<u8>::from_hex(t), "PublicSeq::from_hex"); must_panic!(PublicSeq::<u8>::from_string(t.clone()), "PublicSeq::from_string");
        must_panic!(By13::from_hex(&format!("{}{}", hex(&a), ext)), "array from_hex"); must_panic!(Pb13::from_hex(&format!("{}{}", ext, hex(&a))), "public array from_hex");
    }
    let l = c.rng.len(13, 30);
    if l != 13 {
        let t = hex(&c.rng.bytes(l));
        must_panic!(By13::from_hex(&t), "array from_hex of another length"); must_panic!(Pb13::from_hex(&t), "public array from_hex of another length");
    }
    Ok(())
}
// ---- polynomials ----
type P = Vec<BigInt>;
fn bz(x: i64) -> BigInt { BigInt::from(x) }
fn md(x: BigInt, n: i64) -> BigInt { let r = x % bz(n); if r.sign() == Sign::Minus { r + bz(n) } else { r } }
fn pmul(a: &P, b: &P, n: i64) -> P {
    let mut o = vec![bz(0); a.len() + b.len()];
    for i in 0..a.len() { for j in 0..b.len() { o[i + j] = md(&o[i + j] + &a[i] * &b[j], n); } }
    o
}
fn trim(mut a: P) -> P { while a.last().map_or(false, |x| *x == bz(0)) { a.pop(); } a }
fn prime(c: &mut Ctx) -> i64 { *[2i64, 3, 5, 7, 13, 101, 257, 65537, 2147483647].get(c.rng.below(9) as usize).unwrap() }
macro_rules! poly_t { ($f:ident, $g:ident, $t:ty, $mk:expr, $un:expr) => {
    fn $f(c: &mut Ctx) -> R {
        let nb = 1 + c.rng.below(30);
        let n = if c.rng.bool() { prime(c) } else { 2 + c.rng.below(1 << nb) as i64 };
        let mk: fn(i64) -> $t = $mk; let un: fn($t) -> i128 = $un;
        let gen = |c: &mut Ctx, l: usize| (0..l).map(|_| if c.rng.below(3) == 0 { 0 } else if c.rng.below(4) == 0 { n - 1 } else { c.rng.below(n as u64) as i64 }).collect::<Vec<i64>>();
        let la = match c.rng.lit_len(6, 300) { Some(l) => l, None => if c.rng.below(16) == 0 { c.rng.below(70) as usize } else { c.rng.below(9) as usize } };
        let lb = match c.rng.lit_len(6, 300) { Some(l) => l, None => if c.rng.below(16) == 0 { c.rng.below(70) as usize } else { c.rng.below(9) as usize } };
        let (a, b) = (gen(c, la), gen(c, lb));
        c.note(format!("{} n={} a={:?} b={:?}", stringify!($t), n, a, b));
        let tv = |v: &[i64]| v.iter().map(|x| mk(*x)).collect::<Vec<$t>>();
        let bv = |v: &[i64]| v.iter().map(|x| bz(*x)).collect::<P>();
        let back = |v: &[$t]| -> Result<P, String> { v.iter().map(|x| { let y = un(*x); if y < 0 || y >= n as i128 { Err(format!("coefficient {} outside [0, n)", y)) } else { Ok(BigInt::from(y)) } }).collect() };
        let (x, y) = (tv(&a), tv(&b));
        let len = la.max(lb);
        let at = |v: &[i64], i: usize| bz(*v.get(i).unwrap_or(&0));
        let add: P = (0..len).map(|i| md(at(&a, i) + at(&b, i), n)).collect();
        let sub: P = (0..len).map(|i| md(at(&a, i) - at(&b, i), n)).collect();
        eq!(trim(back(&poly_add(&x, &y, mk(n)))?), trim(add), "poly_add");
        eq!(trim(back(&poly_sub(&x, &y, mk(n)))?), trim(sub), "poly_sub");
        eq!(trim(back(&poly_mul(&x, &y, mk(n)))?), trim(pmul(&bv(&a), &bv(&b), n)), "poly_mul");
        let deg = a.iter().rposition(|v| *v != 0);
        let lc = leading_coefficient(&x);
        eq!((lc.0, un(lc.1)), (deg.unwrap_or(0), deg.map_or(0, |d| a[d] as i128)), "leading_coefficient");
        if let Some(d) = b.iter().rposition(|v| *v != 0) {
            if num::integer::gcd(b[d], n) == 1 {
                let (q, r) = val!(poly_div(&x, &y, mk(n)), "poly_div");
                let (q, r) = (back(&q)?, back(&r)?);
                if trim(r.clone()).len() > d { return Err(format!("poly_div: remainder {:?} has degree >= {}", r, d)); }
                let mut s = pmul(&q, &bv(&b), n);
                s.resize(s.len().max(r.len()), bz(0));
                for i in 0..r.len() { s[i] = md(&s[i] + &r[i], n); }
                eq!(trim(s), trim(bv(&a)), "poly_div: q * b + r");
            }
        }
        Ok(())
    }
    fn $g(c: &mut Ctx) -> R {
        // irreducible polynomials (coefficients from low to high degree)
        let tab: [(i64, &[i64]); 7] = [(2, &[1, 1, 0, 1, 1, 0, 0, 0, 1]), (2, &[1, 1, 0, 1]), (3, &[2, 2, 1]), (7, &[1, 0, 1]), (7, &[5, 0, 0, 1]), (5, &[2, 0, 1]), (5, &[1, 1, 0, 1])];
        let (n, irr) = tab[c.rng.below(7) as usize];
        let k = 1 + c.rng.below(n as u64 - 1) as i64; // a unit multiple is irreducible too
        let irr: Vec<i64> = irr.iter().map(|x| x * k % n).collect();
        let d = irr.len() - 1;
        let l = 1 + c.rng.below(d as u64) as usize;
        let a: Vec<i64> = (0..l).map(|_| c.rng.below(n as u64) as i64).collect();
        let mk: fn(i64) -> $t = $mk; let un: fn($t) -> i128 = $un;
        c.note(format!("{} n={} a={:?} modulo {:?}", stringify!($t), n, a, irr));
        let tv = |v: &[i64]| v.iter().map(|x| mk(*x)).collect::<Vec<$t>>();
        let bv = |v: &[i64]| v.iter().map(|x| bz(*x)).collect::<P>();
        if a.iter().all(|x| *x == 0) { return Ok(()); }
        let i = val!(extended_euclid(&tv(&a), &tv(&irr), mk(n)), "extended_euclid");
        match i {
            Err(e) => Err(format!("extended_euclid: {} although the polynomial is invertible", e)),
            Ok(i) => {
                let i: P = i.iter().map(|x| BigInt::from(un(*x))).collect();
                if i.iter().any(|x| *x < bz(0) || *x >= bz(n)) { return Err("coefficient outside [0, n)".into()); }
                let mut m = pmul(&i, &bv(&a), n);
                let kinv = (1..n).find(|x| x * k % n == 1).unwrap();
                let lead = kinv * (1..n).find(|x| x * (irr[d] * kinv % n) % n == 1).unwrap() % n;
                for j in (d..m.len()).rev() { let q = md(&m[j] * bz(lead), n); for t in 0..=d { m[j - d + t] = md(&m[j - d + t] - &q * bz(irr[t]), n); } }
                eq!(trim(m), vec![bz(1)], "a * inverse");
                Ok(())
            }
        }
    }
} }
poly_t!(p1u, p2u, u128, |x| x as u128, |x| x as i128);
poly_t!(p1i, p2i, i128, |x| x as i128, |x| x);
poly_t!(p1s, p2s, U128, |x| U128(x as u128), |x| x.0 as i128);
poly_t!(p1t, p2t, I64, |x| I64(x), |x| x.0 as i128);
poly_t!(p1w, p2w, u64, |x| x as u64, |x| x as i128);

/// The fixed-length types of the poly! macro: Z_n[x]/m.
macro_rules! poly_m { ($mod:ident, $g:ident, $t:ty, $l:literal, $n:literal, $irr:expr, $field:literal) => {
    mod $mod {
        use hacspec::prelude::*;
        use num::bigint::BigInt;
        use super::{md, bz, pmul, trim, chk, P};
        use crate::{attempt, Ctx, R};
        const IRR: &[(usize, $t)] = $irr;
        poly!(T, $t, $l, $n, IRR);
        const N: i64 = $n;
        fn bv(v: &[$t]) -> P { v.iter().map(|x| BigInt::from(*x)).collect() }
        fn red(mut m: P, irr: &[$t]) -> P {
            let d = irr.iter().rposition(|x| *x != 0).unwrap();
            let inv = (1..N).find(|x| md(BigInt::from(irr[d]) * bz(*x), N) == bz(1)).unwrap();
            for j in (d..m.len()).rev() { let q = md(&m[j] * bz(inv), N); for t in 0..=d { m[j - d + t] = md(&m[j - d + t] - &q * BigInt::from(irr[t]), N); } }
            m.truncate(d); trim(m)
        }
        pub fn $g(c: &mut Ctx) -> R {
            let mut irr = [0 as $t; $l + 1];
            for x in IRR.iter() { irr[x.0] = x.1; }
            let d = irr.iter().rposition(|x| *x != 0).unwrap();
            let gen = |c: &mut Ctx| { let mut p = [0 as $t; $l]; let k = 1 + c.rng.below(d as u64) as usize; for i in 0..k { if c.rng.below(4) != 0 { p[i] = if c.rng.below(4) == 0 { N - 1 } else { c.rng.below(N as u64) as i64 } as $t; } } p };
            let (a, b) = (gen(c), gen(c));
            c.note(format!("{} modulo {} a={:?} b={:?}", stringify!($t), N, a, b));
            let (x, y) = (T::new_full(a), T::new_full(b));
            let back = |q: T| -> Result<P, String> {
                if q.irr != irr || q.n != $n { return Err("another ring".to_string()) }
                if q.poly.iter().any(|v| BigInt::from(*v) < bz(0) || BigInt::from(*v) >= bz(N)) { return Err("coefficient outside [0, n)".to_string()) }
                Ok(trim(bv(&q.poly)))
            };
            eq!(back(x)?, trim(bv(&a)), "new_full");
            let sparse: Vec<(usize, $t)> = (0..$l).rev().filter(|i| a[*i] != 0).map(|i| (i, a[i])).collect();
            eq!(back(T::new(&sparse))?, trim(bv(&a)), "new");
            eq!(back(T::from_vec(a[..].to_vec()))?, trim(bv(&a)), "from_vec");
            eq!((T::new_full(a) == x, x == y), (true, a == b), "==");
            eq!(back(x + y)?, trim((0..$l).map(|i| md(BigInt::from(a[i]) + BigInt::from(b[i]), N)).collect()), "+");
            eq!(back(x - y)?, trim((0..$l).map(|i| md(BigInt::from(a[i]) - BigInt::from(b[i]), N)).collect()), "-");
            eq!(back(x * y)?, red(pmul(&bv(&a), &bv(&b), N), &irr), "*");
            if let Some(db) = b.iter().rposition(|v| *v != 0) {
                if $field || num::integer::gcd(b[db] as i64, N) == 1 {
                    let (q, r) = val!(x / y, "/");
                    let (q, r) = (back(q)?, back(r)?);
                    if r.len() > db { return Err(format!("/: remainder {:?} has degree >= {}", r, db)) }
                    let mut s = pmul(&q, &bv(&b), N);
                    s.resize(s.len().max(r.len()), bz(0));
                    for i in 0..r.len() { s[i] = md(&s[i] + &r[i], N); }
                    eq!(trim(s), trim(bv(&a)), "/: q * b + r");
                }
                if $field {
                    let i = val!(y.inv(), "inv");
                    eq!(red(pmul(&back(i)?, &bv(&b), N), &irr), vec![bz(1)], "b * inv(b)");
                    eq!(back(i * y)?, vec![bz(1)], "inv(b) * b");
                }
            }
            let mut long = a[..].to_vec(); long.resize($l + c.rng.below(3) as usize, 0 as $t);
            eq!(back(T::from_vec(long.clone()))?, trim(bv(&a)), "from_vec of leading zeros");
            long.push(1 as $t);
            chk(attempt(|| T::from_vec(long.clone()).poly.len()), None, "from_vec of too many coefficients")?;
            Ok(())
        }
    }
} }
poly_m!(pm1, pm, u128, 8, 2, &[(0, 1), (1, 1), (3, 1), (4, 1), (8, 1)], true);
poly_m!(pm2, pm, i128, 3, 7, &[(0, 5), (3, 1)], true);
poly_m!(pm3, pm, u64, 3, 5, &[(0, 3), (1, 3), (3, 3)], true);
poly_m!(pm4, pm, i64, 40, 91, &[(0, 2), (7, 90), (40, 1)], false);
poly_m!(pm5, pm, u128, 9, 65537, &[(0, 3), (2, 65536), (6, 65536)], false);

pub fn table(p: &str) -> Option<Vec<F>> {
    Some(match p {
        "H05" => vec![h5a, h5b, h5c, h5d, h5e, h5f, h5g, h5h, h5i, h5j, h5k, h5l, h5m, h5n],
        "H06" => vec![h6a, h6b, h6c, h6d, h6e, h6f, h6g, h6h, h6i, h6j, h6k, h6l, h6m, h6n],
        "H07" => vec![h07_words, h07_arrays],
        "H08" => vec![h08_arr, h08_seq],
        "H09" => vec![h09],
        "P01" => vec![p1u, p1i, p1s, p1t, p1w, p2u, p2s, p2w, pm1::pm, pm2::pm, pm3::pm, pm4::pm, pm5::pm],
        _ => return None,
    })
}
