From 794c8f25c1e4494f370e8b47ae2257f14b241c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 01/22] fix: sha256 pads messages whose length is a multiple of
 the block size

---
 spec-examples/src/sha2/sha2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spec-examples/src/sha2/sha2.rs b/spec-examples/src/sha2/sha2.rs
index 737e69f..b79c777 100644
--- a/spec-examples/src/sha2/sha2.rs
+++ b/spec-examples/src/sha2/sha2.rs
@@ -189,5 +189,13 @@ pub fn hash(msg: &ByteSeq) -> Digest {
             h = compress(compress_input, h);
         }
     }
+    if msg.len() % BLOCK_SIZE == 0 {
+        // There is no partial last block: the padding is a block of its own.
+        let mut pad_block = Block::new();
+        pad_block[0] = U8(0x80);
+        let len_bist: U64 = (msg.len() * 8).into();
+        pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(pad_block, h);
+    }
     Digest::from_seq(&h.to_be_bytes())
 }
-- 
2.43.0


From 850d600c7a0b4fd1c6158e09747b8265c3a2249c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 02/22] fix: blake2b counter keeps its high word and carries
 into it

---
 spec-examples/src/blake2/blake2b.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 04d4f2b..0886bab 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -73,10 +73,12 @@ fn mix<Word: SecretInteger>(
 
 fn inc_counter<Word: PublicInteger>(t: Counter<Word>, x: Word) -> Counter<Word> {
     let mut result = Counter::new();
-    let new_val: Word = t[0] + x;
+    let (lo, hi): (Word, Word) = (t[0], t[1]);
+    let new_val = lo.wrap_add(x);
     result[0] = new_val;
+    result[1] = hi;
     if new_val.less_than(x) {
-        result[1] = t[1] + Word::ONE;
+        result[1] = hi.wrap_add(Word::ONE);
     }
     result
 }
-- 
2.43.0


From 35920a6137580f26fb0bc4bbbf3c550c48a87c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 03/22] fix: blake2b finalizes data whose length is a multiple
 of the block size

---
 spec-examples/src/blake2/blake2b.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 0886bab..0d856cc 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -179,9 +179,12 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
     h[0] = h[0] ^ Word::from_literal(0x0101_0000) ^ Word::from_literal(64);
 
     let mut t : Counter<Word::PublicVersion> = Counter::new();
-    for i in 0..data.num_chunks(128) {
+    // The last block is the one that ends the data, also when it is full; no
+    // data at all is a single empty block.
+    let num_blocks = if data.len() == 0 { 1 } else { data.num_chunks(128) };
+    for i in 0..num_blocks {
         let (block_len, block) = data.get_chunk(128, i);
-        if block_len == 128 {
+        if i + 1 < num_blocks {
             t = inc_counter(t, Word::PublicVersion::from_literal(128));
             h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
         } else {
-- 
2.43.0


From 8d88d4df967488453d53c518e83859946fdd2087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 04/22] fix: poly1305 adds s modulo 2^128 and not in the field

---
 .../src/chacha20_poly1305/poly1305.rs         | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/spec-examples/src/chacha20_poly1305/poly1305.rs b/spec-examples/src/chacha20_poly1305/poly1305.rs
index 894ca1d..9d251ed 100644
--- a/spec-examples/src/chacha20_poly1305/poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/poly1305.rs
@@ -55,18 +55,21 @@ fn poly_inner(m: &ByteSeq, r: FieldElement) -> FieldElement {
 }
 
 pub fn poly(m: &ByteSeq, key: Key) -> Tag {
-    let s_elem = FieldElement::from_secret_literal(U128_from_le_bytes(U128Word::from_sub(
-        &key, BLOCKSIZE, BLOCKSIZE,
-    )));
+    let s = U128_from_le_bytes(U128Word::from_sub(&key, BLOCKSIZE, BLOCKSIZE));
     let r_elem = encode_r(Block::from_sub_range(&key, 0..BLOCKSIZE));
     let a = poly_inner(m, r_elem);
-    let n = a + s_elem;
-    // Note that n might be less than 16 byte -> zero-pad; but might also be
+    // Note that a might be less than 16 byte -> zero-pad; but might also be
     // larger than Tag::capacity().
-    let n_v = n.to_public_byte_seq_le();
+    let a_v = a.to_byte_seq_le();
+    let mut a_128 = U128Word::new();
+    for i in 0..min(a_128.len(), a_v.len()) {
+        a_128[i] = a_v[i];
+    }
+    // The tag is a + s modulo 2^128, without a reduction modulo 2^130 - 5.
+    let n_v = U128_to_le_bytes(U128_from_le_bytes(a_128) + s);
     let mut tag = Tag::new();
-    for i in 0..min(tag.len(), n_v.len()) {
-        tag[i] = n_v[i];
+    for i in 0..tag.len() {
+        tag[i] = n_v[i].declassify();
     }
     tag
 }
-- 
2.43.0


From bf14dbd7310f38a0969ae492ebe7f047168ea7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 05/22] fix: x25519 secret_to_public builds a 32-byte base
 point

---
 spec-examples/src/curve25519/curve25519.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spec-examples/src/curve25519/curve25519.rs b/spec-examples/src/curve25519/curve25519.rs
index f5911b6..2d0e95e 100644
--- a/spec-examples/src/curve25519/curve25519.rs
+++ b/spec-examples/src/curve25519/curve25519.rs
@@ -97,7 +97,8 @@ pub fn scalarmult(s: SerializedScalar, p: SerializedPoint) -> SerializedPoint {
 }
 
 pub fn secret_to_public(s: SerializedScalar) -> SerializedPoint {
-    let base = SerializedPoint::from_hex("09");
+    let mut base = SerializedPoint::new();
+    base[0] = U8(9);
     scalarmult(s, base)
 }
 
-- 
2.43.0


From 880f4514304c1e407034189fae2d791a46624fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 06/22] fix: hkdf expand accepts the documented maximum of 255
 blocks

---
 spec-examples/src/hkdf/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/hkdf/hkdf.rs b/spec-examples/src/hkdf/hkdf.rs
index 7066ea1..73af121 100644
--- a/spec-examples/src/hkdf/hkdf.rs
+++ b/spec-examples/src/hkdf/hkdf.rs
@@ -42,7 +42,7 @@ fn div_ceil(a: usize, b: usize) -> u64 {
 /// Output length l can be at most 255*HASH_LEN.
 pub fn expand(prk: &ByteSeq, info: &ByteSeq, l: usize) -> ByteSeq {
     let n = div_ceil(l, HASH_LEN);
-    debug_assert!(n < u8::max_value().into());
+    debug_assert!(n <= u8::max_value().into());
     let n = n as u8;
 
     let mut t_i = hmac::PRK::new();
-- 
2.43.0


From 11992f56e64a034e9ef0b52c7c66b92f16cac438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 07/22] fix: unsigned sub_mod no longer overflows on valid
 operands

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 8572ef8..91714b0 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,13 +17,13 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                println!("FOOOOOO {:?}, {:?}, {:?}", self, rhs, n);
-                let mut tmp = self;
-                while tmp < rhs {
-                    tmp += n;
+                let a = self % n;
+                let b = rhs % n;
+                if a >= b {
+                    a - b
+                } else {
+                    n - b + a
                 }
-                println!("{:?} = {:?} - {:?}", tmp, rhs, tmp-rhs);
-                (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
-- 
2.43.0


From c9f7d48129cc7a2732829d85770a7dd1420783d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 08/22] fix: modular inverse neither overflows nor loops on
 intermediate values

---
 hacspec/src/math_util.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 8516bdd..283f18e 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -26,43 +26,31 @@ pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T
     let mut t = T::ZERO;
     let mut r = n;
     let mut new_t = T::ONE;
-    let mut new_r = x;
+    let mut new_r = x.modulo(n);
+    // The Bezout coefficients alternate in sign and never exceed n, so we only
+    // keep their absolute values and the sign of t.
+    let mut t_negative = true;
 
-    println!("n: {:?}", n);
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
 
         let tmp = new_r.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_r;
-        let mut tmp_r = r;
-        while tmp_r.less_than(tmp_prod) {
-            tmp_r = tmp_r + n;
-        }
-        new_r = tmp_r - tmp_prod;
+        new_r = r - q * new_r;
         r = tmp;
 
         let tmp = new_t.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_t;
-        let mut tmp_t = t;
-        while tmp_t.less_than(tmp_prod) {
-            tmp_t = tmp_t + n;
-        }
-        new_t = tmp_t - tmp_prod;
+        new_t = t + q * new_t;
         t = tmp;
+
+        t_negative = !t_negative;
     }
 
     if r.greater_than(T::ONE) && !x.equal(T::ZERO) {
         panic!("{:x?} is not invertible in ℤ/{:x?}", x, n);
     }
-    if t.less_than(T::ZERO) {
-        if signed {
-            t = t.abs()
-        } else {
-            t = t + n
-        };
-    };
+    if t_negative && !signed && !t.equal(T::ZERO) {
+        t = n - t;
+    }
 
     t
 }
-- 
2.43.0


From ef748a0a1f5152026ceaaf83b1da765fc6bca127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 09/22] fix: rotations of negative signed integers do not smear
 the sign bit

---
 hacspec/src/traits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index cc91343..957abd4 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -108,14 +108,16 @@ pub trait Integer: Numeric {
     fn rotate_left(self, n: u32) -> Self {
         // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self << n) | (self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        // `>>` is arithmetic on signed integers: keep only the rotated bits.
+        let mask = (Self::ONE << n).wrap_sub(Self::ONE);
+        (self << n) | ((self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1))) & mask)
     }
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_right(self, n: u32) -> Self {
         // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self >> n) | (self << ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        Integer::rotate_left(self, (-(n as i32) as u32) & (Self::NUM_BITS - 1))
     }
 }
 
-- 
2.43.0


From 7a90775e494c2b5cb79fa5cd018b09c2c0bc4df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 10/22] fix: xor of public sequences returns a sequence of the
 operands' length

---
 hacspec/src/vec_integers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/vec_integers.rs b/hacspec/src/vec_integers.rs
index 771d9b3..91d7a1d 100644
--- a/hacspec/src/vec_integers.rs
+++ b/hacspec/src/vec_integers.rs
@@ -1206,7 +1206,8 @@ impl<T: Numeric + PublicInteger> BitXor for PublicSeq<T> {
     type Output = PublicSeq<T>;
     #[cfg_attr(feature="use_attributes", library(hacspec))]
     fn bitxor(self, rhs: Self) -> Self::Output {
-        let mut out = Self::default();
+        debug_assert!(self.len() == rhs.len());
+        let mut out = Self::new(self.len());
         for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
             *a = *b ^ *c;
         }
-- 
2.43.0


From eff7585b6815f98830aa7939f68cae0cbe28a7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 11/22] fix: comparison masks of public signed integers are all
 ones

---
 hacspec/src/machine_integers.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 91714b0..d171f98 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -174,7 +174,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn not_equal_bm(self, other: Self) -> Self {
                 if self != other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -182,7 +182,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn equal_bm(self, other: Self) -> Self {
                 if self == other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -190,7 +190,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_bm(self, other: Self) -> Self {
                 if self > other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -198,7 +198,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn greater_than_or_qual_bm(self, other: Self) -> Self {
                 if self >= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -206,7 +206,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_bm(self, other: Self) -> Self {
                 if self < other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
@@ -214,7 +214,7 @@ macro_rules! implement_public_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn less_than_or_equal_bm(self, other: Self) -> Self {
                 if self <= other {
-                    <$t>::max_value()
+                    !<$t>::default()
                 } else {
                     <$t>::default()
                 }
-- 
2.43.0


From c7e5ee7fa355803e4776245e4bbcbe285c783234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 12/22] fix: bounded integers accept their largest value

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e077062..3b872bd 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,7 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x < max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 4d78660aa68b6abdc64bbad6ebcb2f393bc6ab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 13/22] fix: signed bounded integers reject values below their
 lower bound

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3b872bd..f0f9830 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,7 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value && -&x <= max_value, "{} is too large for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 743d581fe0e872886ad9ef1dc294fa700a850025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 14/22] fix: negative literals of bounded integers keep their
 sign

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index f0f9830..f353896 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -33,7 +33,7 @@ macro_rules! abstract_int {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigInt::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-- 
2.43.0


From ebe1822b87b32a894d13ef3c0d7d084e6223bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 15/22] fix: modular integers reduce the modulus given as a
 literal

---
 abstract-integers/src/nat_mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index ed2d014..d514b96 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -62,7 +62,9 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                // The modulus itself is accepted and reduced to zero.
+                let base_x: $base = big_x.into();
+                base_x.into()
             }
 
             #[allow(dead_code)]
-- 
2.43.0


From afd5be49ad34d360a5d9f7293deab610bac83413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 16/22] fix: negative literals of modular integers are reduced
 modulo n

---
 abstract-integers/src/nat_mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index d514b96..7f55f27 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -69,11 +69,13 @@ macro_rules! modular_integer {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigUint::from(x as u128);
-                if big_x > $name::max().into() {
+                let n: BigInt = $name::max().into();
+                let big_x = BigInt::from(x);
+                if big_x > n || -&big_x > n {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let base_x: $base = ((big_x + &n) % n).into();
+                base_x.into()
             }
         }
     };
-- 
2.43.0


From e2d5bbafbd99736e898162e9eba13e1d990625cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 17/22] fix: polynomial division reduces the quotient
 coefficient modulo n

---
 hacspec/src/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 980dcad..eb869ce 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -176,7 +176,7 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
             rem[idx].div(c) // XXX: Update once we change to Numeric
         } else {
             // divide by using inverse mod n
-            rem[idx] * T::inv(c, n)
+            rem[idx].mul_mod(T::inv(c, n), n)
         };
         if t.equal(T::default()) && !rem[idx].equal(T::default()) {
             panic!("Can't divide these two polynomials");
-- 
2.43.0


From a7711c582117299171499161d017c5db8e6e189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 18/22] fix: hex parsing rejects plus signs

---
 hacspec/src/array.rs | 2 ++
 hacspec/src/util.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hacspec/src/array.rs b/hacspec/src/array.rs
index 4b63c8e..c2c2345 100644
--- a/hacspec/src/array.rs
+++ b/hacspec/src/array.rs
@@ -247,6 +247,8 @@ macro_rules! _array_base {
             }
             fn hex_string_to_vec(s: &str) -> Vec<$t> {
                 debug_assert!(s.len() % std::mem::size_of::<$t>() == 0);
+                // `from_str_radix` accepts a leading `+`.
+                assert!(!s.contains('+'), "Error parsing hex string");
                 let b: Result<Vec<$t>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map(<$t>::from))
diff --git a/hacspec/src/util.rs b/hacspec/src/util.rs
index 6895f48..1cc0981 100644
--- a/hacspec/src/util.rs
+++ b/hacspec/src/util.rs
@@ -9,6 +9,8 @@ use crate::prelude::*;
 #[cfg_attr(feature="use_attributes", internal(hacspec))]
 pub fn hex_string_to_bytes(s: &str) -> Vec<u8> {
     debug_assert!(s.len() % 2 == 0);
+    // `from_str_radix` accepts a leading `+`.
+    assert!(!s.contains('+'), "Error parsing hex string");
     let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
         .step_by(2)
         .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From 01a3b9cb9d00bee4e38e64af19b9c928d32657e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 19/22] fix: get_byte works on 8-bit integers

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index 957abd4..34e4b78 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -267,7 +267,7 @@ pub trait UnsignedSecretInteger : UnsignedInteger + SecretInteger {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn get_byte(self, i: u32) -> Self {
-        (self >> (i * 8)) & ((Self::ONE << 8) - Self::ONE)
+        (self >> (i * 8)) & Self::from_literal(0xff)
     }
 }
 
-- 
2.43.0


From d5a16b1555356fbc35fa591309a33977829fdd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 20/22] fix: powers of small modular integers accept any u128
 exponent

---
 abstract-integers/src/abstract_int.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index f353896..cd77c9d 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -152,7 +152,11 @@ macro_rules! abstract_public {
             /// The exponent is a u128.
             #[allow(dead_code)]
             pub fn pow(self, exp: u128, modval: Self) -> Self {
-                self.pow_felem(BigInt::from(exp).into(), modval)
+                // The exponent does not have to fit into this type.
+                let a: BigInt = self.into();
+                let m: BigInt = modval.into();
+                let c: BigInt = a.modpow(&BigInt::from(exp), &m);
+                c.into()
             }
 
             fn rem(self, n: Self) -> Self {
-- 
2.43.0


From c0adfa8b44748e83ab95cb6ab8356da12fa8ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:01 +0000
Subject: [PATCH 21/22] fix: hexadecimal text of bounded integers does not
 accept a sign

---
 abstract-integers/src/abstract_int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index cd77c9d..c38b467 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -15,6 +15,8 @@ macro_rules! abstract_int {
 
             fn hex_string_to_bytes(s: &str) -> Vec<u8> {
                 assert!(s.len() % 2 == 0, "length of hex string {}: {}",s, s.len());
+                // `from_str_radix` accepts a leading `+`.
+                assert!(!s.contains('+'), "Error parsing hex string");
                 let b: Result<Vec<u8>, ParseIntError> = (0..s.len())
                     .step_by(2)
                     .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-- 
2.43.0


From 5f49069203bc0e7e59120018bac265cfd3ba6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:01 +0000
Subject: [PATCH 22/22] fix: from_vec of poly! types rejects a coefficient just
 beyond the length

---
 hacspec/src/poly.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index eb869ce..d376cf5 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -426,8 +426,8 @@ macro_rules! poly {
 
             pub fn from_vec(v: Vec<$t>) -> $name {
                 let (d, _) = leading_coefficient(&v);
-                debug_assert!(d <= $l);
-                if d > $l {
+                debug_assert!(d < $l);
+                if d >= $l {
                     panic!("The vector is too long to fit this polynomial.");
                 }
                 let mut p = [<$t>::default(); $l];
-- 
2.43.0

