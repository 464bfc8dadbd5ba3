From bcf82e34436160b406f41e72118b5fd9556303d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 01/21] fix: SHA-256 padding of messages that fill their last
 block

---
 spec-examples/src/sha2/sha2.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spec-examples/src/sha2/sha2.rs b/spec-examples/src/sha2/sha2.rs
index 737e69f..0c50de4 100644
--- a/spec-examples/src/sha2/sha2.rs
+++ b/spec-examples/src/sha2/sha2.rs
@@ -189,5 +189,13 @@ pub fn hash(msg: &ByteSeq) -> Digest {
             h = compress(compress_input, h);
         }
     }
+    if msg.len() % BLOCK_SIZE == 0 {
+        // The message fills all its blocks, the padding is a block of its own.
+        let mut pad_block = Block::new();
+        pad_block[0] = U8(0x80);
+        let len_bist: U64 = (msg.len() * 8).into();
+        pad_block = pad_block.update(BLOCK_SIZE - LEN_SIZE, &U64_to_be_bytes(len_bist));
+        h = compress(pad_block, h);
+    }
     Digest::from_seq(&h.to_be_bytes())
 }
-- 
2.43.0


From 7de8b65b8d52e72abfaf3fc952a644d54884ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 02/21] fix: HKDF expand accepts the maximal output of 255 hash
 lengths

---
 spec-examples/src/hkdf/hkdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spec-examples/src/hkdf/hkdf.rs b/spec-examples/src/hkdf/hkdf.rs
index 7066ea1..73af121 100644
--- a/spec-examples/src/hkdf/hkdf.rs
+++ b/spec-examples/src/hkdf/hkdf.rs
@@ -42,7 +42,7 @@ fn div_ceil(a: usize, b: usize) -> u64 {
 /// Output length l can be at most 255*HASH_LEN.
 pub fn expand(prk: &ByteSeq, info: &ByteSeq, l: usize) -> ByteSeq {
     let n = div_ceil(l, HASH_LEN);
-    debug_assert!(n < u8::max_value().into());
+    debug_assert!(n <= u8::max_value().into());
     let n = n as u8;
 
     let mut t_i = hmac::PRK::new();
-- 
2.43.0


From 964807387588f270ab4fd4d0e2bf1324d08c7a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 03/21] fix: BLAKE2b finalises the last block of empty and
 block-aligned messages

---
 spec-examples/src/blake2/blake2b.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spec-examples/src/blake2/blake2b.rs b/spec-examples/src/blake2/blake2b.rs
index 04d4f2b..1763ad8 100644
--- a/spec-examples/src/blake2/blake2b.rs
+++ b/spec-examples/src/blake2/blake2b.rs
@@ -177,9 +177,14 @@ pub fn blake2<Word: UnsignedSecretInteger>(data: &ByteSeq, alg: BlakeVariant) ->
     h[0] = h[0] ^ Word::from_literal(0x0101_0000) ^ Word::from_literal(64);
 
     let mut t : Counter<Word::PublicVersion> = Counter::new();
-    for i in 0..data.num_chunks(128) {
+    let num_blocks = data.num_chunks(128);
+    if num_blocks == 0 {
+        // The empty message is a single block of zeroes.
+        h = compress(h, &ByteSeq::new(128), t, true, alg);
+    }
+    for i in 0..num_blocks {
         let (block_len, block) = data.get_chunk(128, i);
-        if block_len == 128 {
+        if i + 1 < num_blocks {
             t = inc_counter(t, Word::PublicVersion::from_literal(128));
             h = compress(h, &ByteSeq::from_seq(&block), t, false, alg);
         } else {
-- 
2.43.0


From 49947535b2e001f3a46c6e37d9aee10c78a578ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 04/21] fix: X25519 secret_to_public uses a 32-byte encoding of
 the base point

---
 spec-examples/src/curve25519/curve25519.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spec-examples/src/curve25519/curve25519.rs b/spec-examples/src/curve25519/curve25519.rs
index f5911b6..2d0e95e 100644
--- a/spec-examples/src/curve25519/curve25519.rs
+++ b/spec-examples/src/curve25519/curve25519.rs
@@ -97,7 +97,8 @@ pub fn scalarmult(s: SerializedScalar, p: SerializedPoint) -> SerializedPoint {
 }
 
 pub fn secret_to_public(s: SerializedScalar) -> SerializedPoint {
-    let base = SerializedPoint::from_hex("09");
+    let mut base = SerializedPoint::new();
+    base[0] = U8(9);
     scalarmult(s, base)
 }
 
-- 
2.43.0


From eb7edda8b8a5b788c8bbc694f5b3a17cba2c531d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 05/21] fix: exclusive-or of public sequences returns the
 element-wise result

---
 hacspec/src/vec_integers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hacspec/src/vec_integers.rs b/hacspec/src/vec_integers.rs
index 771d9b3..e2528a9 100644
--- a/hacspec/src/vec_integers.rs
+++ b/hacspec/src/vec_integers.rs
@@ -1206,7 +1206,11 @@ impl<T: Numeric + PublicInteger> BitXor for PublicSeq<T> {
     type Output = PublicSeq<T>;
     #[cfg_attr(feature="use_attributes", library(hacspec))]
     fn bitxor(self, rhs: Self) -> Self::Output {
-        let mut out = Self::default();
+        debug_assert!(
+            self.len() == rhs.len(),
+            "Can't xor two sequences that don't have the same length."
+        );
+        let mut out = Self::new(self.len());
         for (a, (b, c)) in out.b.iter_mut().zip(self.b.iter().zip(rhs.b.iter())) {
             *a = *b ^ *c;
         }
-- 
2.43.0


From 96c68955b4838e0e758c90eccd7e41393d37dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 06/21] fix: Poly1305 adds the one-time pad modulo 2^128

---
 .../src/chacha20_poly1305/poly1305.rs         | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/spec-examples/src/chacha20_poly1305/poly1305.rs b/spec-examples/src/chacha20_poly1305/poly1305.rs
index 894ca1d..67362a6 100644
--- a/spec-examples/src/chacha20_poly1305/poly1305.rs
+++ b/spec-examples/src/chacha20_poly1305/poly1305.rs
@@ -55,18 +55,21 @@ fn poly_inner(m: &ByteSeq, r: FieldElement) -> FieldElement {
 }
 
 pub fn poly(m: &ByteSeq, key: Key) -> Tag {
-    let s_elem = FieldElement::from_secret_literal(U128_from_le_bytes(U128Word::from_sub(
-        &key, BLOCKSIZE, BLOCKSIZE,
-    )));
+    let s = U128_from_le_bytes(U128Word::from_sub(&key, BLOCKSIZE, BLOCKSIZE));
     let r_elem = encode_r(Block::from_sub_range(&key, 0..BLOCKSIZE));
     let a = poly_inner(m, r_elem);
-    let n = a + s_elem;
-    // Note that n might be less than 16 byte -> zero-pad; but might also be
-    // larger than Tag::capacity().
-    let n_v = n.to_public_byte_seq_le();
+    // Note that a might be less than 16 byte -> zero-pad; but might also be
+    // larger than 16 byte -> drop the upper bytes.
+    let a_v = a.to_public_byte_seq_le();
+    let mut a_128 = U128Word::new();
+    for i in 0..min(a_128.len(), a_v.len()) {
+        a_128[i] = U8(a_v[i]);
+    }
+    // The final addition is modulo 2^128, not in the field.
+    let n_v = U128_to_le_bytes(U128_from_le_bytes(a_128) + s);
     let mut tag = Tag::new();
-    for i in 0..min(tag.len(), n_v.len()) {
-        tag[i] = n_v[i];
+    for i in 0..tag.len() {
+        tag[i] = n_v[i].declassify();
     }
     tag
 }
-- 
2.43.0


From 386e42aed2e658a2a64ec476630ab036a6b140f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 07/21] fix: bounded integers represent their largest value

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e077062..3b872bd 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,7 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x < max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From 4af63a6b0efca4d41396e492431762cef71df8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 08/21] fix: bounded integers keep the sign of negative
 literals

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 3b872bd..a1579c3 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -33,7 +33,7 @@ macro_rules! abstract_int {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigInt::from(x as u128);
+                let big_x = BigInt::from(x);
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-- 
2.43.0


From 4ccdcd43112bd69f596ddc3f7895fe72a289d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 09/21] fix: converting a negative bounded integer to a natural
 panics

---
 abstract-integers/src/abstract_int.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index a1579c3..0b1f2a2 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -108,6 +108,9 @@ macro_rules! abstract_int {
 
         impl Into<BigUint> for $name {
             fn into(self) -> BigUint {
+                if self.sign == Sign::Minus {
+                    panic!("Trying to convert a negative number into an unsigned integer!")
+                }
                 BigUint::from_bytes_be(&self.b)
             }
         }
-- 
2.43.0


From db62f2d829b303de85061b219bd6a82c727ea307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 10/21] fix: pow accepts exponents beyond the range of the base
 type

---
 abstract-integers/src/abstract_int.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 0b1f2a2..7acf05c 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -155,7 +155,9 @@ macro_rules! abstract_public {
             /// The exponent is a u128.
             #[allow(dead_code)]
             pub fn pow(self, exp: u128, modval: Self) -> Self {
-                self.pow_felem(BigInt::from(exp).into(), modval)
+                let a: BigInt = self.into();
+                let m: BigInt = modval.into();
+                a.modpow(&BigInt::from(exp), &m).into()
             }
 
             fn rem(self, n: Self) -> Self {
-- 
2.43.0


From 0319fcd9f02dfb3caed3aac6f4c832fe6cfa892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 11/21] fix: modular literals equal to the modulus are reduced

---
 abstract-integers/src/nat_mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index ed2d014..82e9fe3 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -62,7 +62,8 @@ macro_rules! modular_integer {
                 if big_x > $name::max().into() {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let big_x: $base = big_x.into();
+                big_x.into()
             }
 
             #[allow(dead_code)]
-- 
2.43.0


From f1bc9572c0f8b152f3914a5a007f45dba54d7668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 12/21] fix: signed modular literals keep their residue

---
 abstract-integers/src/nat_mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/abstract-integers/src/nat_mod.rs b/abstract-integers/src/nat_mod.rs
index 82e9fe3..dd05add 100644
--- a/abstract-integers/src/nat_mod.rs
+++ b/abstract-integers/src/nat_mod.rs
@@ -68,11 +68,13 @@ macro_rules! modular_integer {
 
             #[allow(dead_code)]
             pub fn from_signed_literal(x: i128) -> Self {
-                let big_x = BigUint::from(x as u128);
-                if big_x > $name::max().into() {
+                let max: BigInt = $name::max().into();
+                let big_x = BigInt::from(x);
+                if big_x > max {
                     panic!("literal {} too big for type {}", x, stringify!($name));
                 }
-                $name(big_x.into())
+                let big_x: $base = (((big_x % &max) + &max) % &max).into();
+                big_x.into()
             }
         }
     };
-- 
2.43.0


From 8dc22c8beacd6090bb59a3a64543c4767f078e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 13/21] fix: negation of signed secret integers wraps

---
 secret-integers/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/secret-integers/src/lib.rs b/secret-integers/src/lib.rs
index d3ac35f..bca31e0 100644
--- a/secret-integers/src/lib.rs
+++ b/secret-integers/src/lib.rs
@@ -398,7 +398,16 @@ macro_rules! define_secret_signed_integer {
     ($name:ident, $repr:ty, $bits:tt) => {
         // Secret signed integer.
         define_secret_integer!($name, $repr, $bits);
-        define_unary_op!($name, -, Neg, neg);
+
+        /// **Warning:** has wrapping semantics.
+        impl Neg for $name {
+            type Output = Self;
+            #[inline]
+            fn neg(self) -> Self {
+                let $name(i1) = self;
+                $name((-Wrapping(i1)).0)
+            }
+        }
 
         /// # Constant-time comparison operators
         impl $name {
-- 
2.43.0


From 3eccba535579d8109894f8d17f5df1341956b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 14/21] fix: generic rotation of negative signed integers

---
 hacspec/src/traits.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index cc91343..568a3ce 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -108,14 +108,23 @@ pub trait Integer: Numeric {
     fn rotate_left(self, n: u32) -> Self {
         // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self << n) | (self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        // `>>` is arithmetic on signed integers, keep only the `n` bits shifted out.
+        let low = !(Self::from_literal(u128::max_value()) << n);
+        (self << n) | ((self >> ((-(n as i32) as u32) & (Self::NUM_BITS - 1))) & low)
     }
 
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn rotate_right(self, n: u32) -> Self {
         // Taken from https://blog.regehr.org/archives/1063
         assert!(n < Self::NUM_BITS);
-        (self >> n) | (self << ((-(n as i32) as u32) & (Self::NUM_BITS - 1)))
+        // `>>` is arithmetic on signed integers, clear the `n` high bits it fills.
+        let shl = (-(n as i32) as u32) & (Self::NUM_BITS - 1);
+        let high = Self::from_literal(u128::max_value()) << shl;
+        if n == 0 {
+            self
+        } else {
+            ((self >> n) & !high) | (self << shl)
+        }
     }
 }
 
-- 
2.43.0


From f32d8c9afc6eeaf46e7f3be553e854d84f03f3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 15/21] fix: get_byte of 8-bit integers no longer overflows its
 mask

---
 hacspec/src/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hacspec/src/traits.rs b/hacspec/src/traits.rs
index 568a3ce..b259991 100644
--- a/hacspec/src/traits.rs
+++ b/hacspec/src/traits.rs
@@ -274,7 +274,7 @@ pub trait UnsignedSecretInteger : UnsignedInteger + SecretInteger {
     #[inline]
     #[cfg_attr(feature = "use_attributes", library(hacspec))]
     fn get_byte(self, i: u32) -> Self {
-        (self >> (i * 8)) & ((Self::ONE << 8) - Self::ONE)
+        (self >> (i * 8)) & Self::from_literal(0xff)
     }
 }
 
-- 
2.43.0


From e9d78a695fce4a01943aa87091c9fe9f8b5d45a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 16/21] fix: modular inversion terminates and returns the
 reduced inverse

---
 hacspec/src/machine_integers.rs |  4 ++--
 hacspec/src/math_util.rs        | 37 +++++++++++----------------------
 2 files changed, 14 insertions(+), 27 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 8572ef8..47d07cd 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -140,7 +140,7 @@ macro_rules! implement_public_mi {
             /// Invert self modulo n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn inv(self, n: Self) -> Self {
-                extended_euclid_invert(self, n, false)
+                extended_euclid_invert(self, n)
             }
             /// `|self|`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
@@ -397,7 +397,7 @@ macro_rules! implement_secret_mi {
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn inv(self, n: Self) -> Self {
                 // FIXME: this is not constant time
-                extended_euclid_invert(self, n, false)
+                extended_euclid_invert(self, n)
             }
             /// `|self|`
             #[cfg_attr(feature="use_attributes", library(hacspec))]
diff --git a/hacspec/src/math_util.rs b/hacspec/src/math_util.rs
index 8516bdd..de5de83 100644
--- a/hacspec/src/math_util.rs
+++ b/hacspec/src/math_util.rs
@@ -22,46 +22,33 @@ pub(crate) fn signed_mod(x: i128, n: i128) -> i128 {
 ///
 #[inline]
 #[cfg_attr(feature="use_attributes", library(internal))]
-pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T, signed: bool) -> T {
+pub(crate) fn extended_euclid_invert<T: Integer>(x: T, n: T) -> T {
+    // The coefficients alternate in sign, `t` and `new_t` hold their absolute values.
+    // They never exceed `n`.
     let mut t = T::ZERO;
     let mut r = n;
     let mut new_t = T::ONE;
-    let mut new_r = x;
+    let mut new_r = x.modulo(n);
+    let mut negative = true;
 
-    println!("n: {:?}", n);
     while !new_r.equal(T::ZERO) {
         let q: T = r.div(new_r);
 
-        let tmp = new_r.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_r;
-        let mut tmp_r = r;
-        while tmp_r.less_than(tmp_prod) {
-            tmp_r = tmp_r + n;
-        }
-        new_r = tmp_r - tmp_prod;
+        let tmp = new_r;
+        new_r = r - q * new_r;
         r = tmp;
 
-        let tmp = new_t.clone();
-        // XXX: a little hacky
-        let tmp_prod = q * new_t;
-        let mut tmp_t = t;
-        while tmp_t.less_than(tmp_prod) {
-            tmp_t = tmp_t + n;
-        }
-        new_t = tmp_t - tmp_prod;
+        let tmp = new_t;
+        new_t = t + q * new_t;
         t = tmp;
+        negative = !negative;
     }
 
     if r.greater_than(T::ONE) && !x.equal(T::ZERO) {
         panic!("{:x?} is not invertible in ℤ/{:x?}", x, n);
     }
-    if t.less_than(T::ZERO) {
-        if signed {
-            t = t.abs()
-        } else {
-            t = t + n
-        };
+    if negative && !t.equal(T::ZERO) {
+        t = n - t;
     };
 
     t
-- 
2.43.0


From e04b6f23926027a03f4c789c38c2e9fbfc4ef893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 17/21] fix: modular subtraction no longer prints its operands

---
 hacspec/src/machine_integers.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hacspec/src/machine_integers.rs b/hacspec/src/machine_integers.rs
index 47d07cd..ab10eef 100644
--- a/hacspec/src/machine_integers.rs
+++ b/hacspec/src/machine_integers.rs
@@ -17,12 +17,10 @@ macro_rules! implement_public_unsigned_mi {
             /// (self - rhs) % n.
             #[cfg_attr(feature="use_attributes", library(hacspec))]
             fn sub_mod(self, rhs: Self, n: Self) -> Self {
-                println!("FOOOOOO {:?}, {:?}, {:?}", self, rhs, n);
                 let mut tmp = self;
                 while tmp < rhs {
                     tmp += n;
                 }
-                println!("{:?} = {:?} - {:?}", tmp, rhs, tmp-rhs);
                 (tmp - rhs) % n
             }
             /// `(self + rhs) % n`
-- 
2.43.0


From e6fa91fe2e8ef6d0eaaba2e5331d07d3ac3bc136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 18/21] fix: bounded signed integers refuse values below their
 range

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index 7acf05c..e9cf9aa 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -70,7 +70,7 @@ macro_rules! abstract_int {
         impl From<BigInt> for $name {
             fn from(x: BigInt) -> $name {
                 let max_value = Self::max();
-                assert!(x <= max_value, "{} is too large for type {}!", x, stringify!($name));
+                assert!(x <= max_value && x >= -max_value, "{} is too large for type {}!", x, stringify!($name));
                 let (sign, repr) = x.to_bytes_be();
                 if sign == Sign::Minus && (!$signed) {
                     panic!("Trying to convert a negative number into an unsigned integer!")
-- 
2.43.0


From b510648ab7d74e53cef823b48b1461b782c62d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 19/21] fix: from_hex without a sign keeps the magnitude of
 signed bounded integers

---
 abstract-integers/src/abstract_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract-integers/src/abstract_int.rs b/abstract-integers/src/abstract_int.rs
index e9cf9aa..9b217e0 100644
--- a/abstract-integers/src/abstract_int.rs
+++ b/abstract-integers/src/abstract_int.rs
@@ -348,7 +348,7 @@ macro_rules! abstract_signed {
                 let sign = match sign {
                     "+" => Sign::Plus,
                     "-" => Sign::Minus,
-                    "" => Sign::NoSign,
+                    "" => Sign::Plus,
                     _ => panic!("from_hex requires the first argument to be + or -")
                 };
                 BigInt::from_bytes_be(sign, &Self::hex_string_to_bytes(s)).into()
-- 
2.43.0


From 5dc26de0569013fbd425de98812fe2831d08f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 20/21] fix: polynomial multiplication over the integers, and
 division by reduced exact quotients

---
 hacspec/src/poly.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index 980dcad..a7fe625 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -148,7 +148,12 @@ pub fn poly_mul<T: Numeric>(x: &[T], y: &[T], n: T) -> Vec<T> {
             .map(|(i, x)| (i, x))
             .filter(|(_, &x)| !x.equal(T::default()))
         {
-            out[adx.0 + bdx.0] = out[adx.0 + bdx.0].add_mod(adx.1.mul_mod(*bdx.1, n), n);
+            let i = adx.0 + bdx.0;
+            if n.equal(T::default()) {
+                out[i] = out[i] + *adx.1 * *bdx.1;
+            } else {
+                out[i] = out[i].add_mod(adx.1.mul_mod(*bdx.1, n), n);
+            }
         }
     }
     out
@@ -173,14 +178,18 @@ pub fn poly_div<T: Numeric>(x: &[T], y: &[T], n: T) -> (Vec<T>, Vec<T>) {
         let idx = rlen - 1 - i;
         let t = if n.equal(T::default()) {
             // In ℤ we try this. It might not work.
-            rem[idx].div(c) // XXX: Update once we change to Numeric
+            let t = rem[idx].div(c); // XXX: Update once we change to Numeric
+            if !(t * c).equal(rem[idx]) {
+                panic!("Can't divide these two polynomials");
+            }
+            t
         } else {
+            if c.equal(T::default()) && !rem[idx].equal(T::default()) {
+                panic!("Can't divide these two polynomials");
+            }
             // divide by using inverse mod n
-            rem[idx] * T::inv(c, n)
+            rem[idx].mul_mod(T::inv(c, n), n)
         };
-        if t.equal(T::default()) && !rem[idx].equal(T::default()) {
-            panic!("Can't divide these two polynomials");
-        }
         let s = monomial(t, dist - i - 1);
         let sy = poly_mul(&s[..], &y[..], n);
         quo = poly_add(&quo[..], &s[..], n);
-- 
2.43.0


From 334bd8fb3825be635baa9db31c070bf83c656020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 21/21] fix: fixed-length polynomials refuse vectors with one
 coefficient too many

---
 hacspec/src/poly.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hacspec/src/poly.rs b/hacspec/src/poly.rs
index a7fe625..9da5bdb 100644
--- a/hacspec/src/poly.rs
+++ b/hacspec/src/poly.rs
@@ -435,8 +435,7 @@ macro_rules! poly {
 
             pub fn from_vec(v: Vec<$t>) -> $name {
                 let (d, _) = leading_coefficient(&v);
-                debug_assert!(d <= $l);
-                if d > $l {
+                if d >= $l {
                     panic!("The vector is too long to fit this polynomial.");
                 }
                 let mut p = [<$t>::default(); $l];
-- 
2.43.0

