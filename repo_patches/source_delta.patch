From 0b633cd6570514f20a3f4194b1c5321aa4a8a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 01/58] fix: Int::little_endian pads the value to the requested
 minimum

The padded buffer was dropped, so little-endian encodings of small values were
shorter than marshal_size() (and could not be decoded), and Scalar::set_int64,
set_bytes and pick left stale high bytes of the receiver in place.
---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index c033c7f..2be97da 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -128,9 +128,9 @@ impl Int {
             return Err(IntError::NotRepresentable);
         }
 
-        let buf = vec![0; pad];
-        let buf2 = &buf[0..act];
-        Ok(reverse(buf2, &v_bytes))
+        let mut buf = reverse(&vec![0; act], &v_bytes);
+        buf.resize(pad, 0);
+        Ok(buf)
     }
 
     /// [`new_int()`] creates a new [`Int`] with a given [`BigInt`] and a [`BigInt`] `modulus`.
-- 
2.43.0


From 56ec58b4c4f095d2698d2f5d4fde4ec4f49d31e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 02/58] fix: Int::big_endian right-aligns values shorter than
 the modulus

It panicked whenever the value needed fewer bytes than the modulus.
---
 src/group/integer_field/integer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 2be97da..111ba6d 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -500,17 +500,16 @@ impl Int {
     /// at least `min` bytes but no more than `max` bytes long.
     /// Returns an [`Error`](IntError) if `max != 0` and the [`Int`] cannot be represented in `max` bytes.
     pub fn big_endian(&self, min: usize, max: usize) -> Result<Vec<u8>, IntError> {
-        let act = self.marshal_size();
-        let (mut pad, mut ofs) = (act, 0);
+        let mut pad = self.marshal_size();
         if pad < min {
-            (pad, ofs) = (min, min - act)
+            pad = min
         }
         if max != 0 && pad > max {
             return Err(IntError::NotRepresentable);
         }
         let mut buf = vec![0_u8; pad];
         let b = self.v.to_bytes_be().1;
-        buf[ofs..].copy_from_slice(&b);
+        buf[pad - b.len()..].copy_from_slice(&b);
         Ok(buf)
     }
 }
-- 
2.43.0


From 991c3afd7e11f84d647b5a3d69749160acd87360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 03/58] fix: Int::div divides instead of multiplying

---
 src/group/integer_field/integer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 111ba6d..e75b2e1 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -404,9 +404,9 @@ impl Scalar for Int {
 
     /// [`div()`] sets the target to `a * b^-1 mod m`, where `b^-1` is the modular inverse of `b`.
     fn div(mut self, a: &Self, b: &Self) -> Self {
-        let _t = BigInt::default();
-        self.v = a.v.clone() * b.v.clone();
-        self.v = self.v.clone() % self.m.clone();
+        let b_inv = Int::default().inv(b);
+        self.m = a.m.clone();
+        self.v = (&a.v * &b_inv.v) % &self.m;
         self
     }
 
-- 
2.43.0


From a8bb3a8cbf474b28dd49a336f6345fe0ccf94fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 04/58] fix: Int::exp raises its argument, not the receiver

Negative exponents, which the documentation allows, no longer panic.
---
 src/group/integer_field/integer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index e75b2e1..93f5dd8 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -471,7 +471,10 @@ impl Int {
     pub fn exp(mut self, a: &Self, e: &BigInt) -> Self {
         self.m = a.m.clone();
         // to protect against golang/go#22830
-        self.v = self.v.modpow(e, &self.m);
+        self.v = match e.sign() {
+            Sign::Minus => Int::default().inv(a).v.modpow(&-e, &self.m),
+            _ => a.v.modpow(e, &self.m),
+        };
         self
     }
 
-- 
2.43.0


From da811a6a110eac808b5c384b97e7e8b74c35083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 05/58] fix: Int normalizes every value it is set to into 0..m

Negative multiples of the modulus became m, new_int kept negative values and
set_string kept unreduced ones.
---
 src/group/integer_field/integer.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 93f5dd8..457a4d8 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -89,16 +89,21 @@ impl Default for Int {
 }
 
 impl Int {
+    /// [`reduce()`] returns the representative of `v` modulo `m` from `0` through `m-1`.
+    fn reduce(v: BigInt, m: &BigInt) -> BigInt {
+        let r = v % m;
+        match r.sign() {
+            Sign::Minus => r + m.abs(),
+            _ => r,
+        }
+    }
+
     /// [`init64()`] creates an [`Int`] with an [`i64`] value and [`BigInt`] modulus.
     pub fn init64(mut self, v: i64, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = BigInt::from(v);
         // specify euclidean modulus for negative number
-        match self.v.sign() {
-            num_bigint::Sign::Minus => self.v = (self.v % m.clone()) + m.abs(),
-            _ => self.v %= m,
-        }
+        self.v = Int::reduce(BigInt::from(v), &m);
         self
     }
 
@@ -106,7 +111,7 @@ impl Int {
     fn init(mut self, v: BigInt, m: BigInt) -> Self {
         self.m = m.clone();
         self.bo = BigEndian;
-        self.v = v % m;
+        self.v = Int::reduce(v, &m);
         self
     }
 
@@ -189,7 +194,7 @@ impl Int {
     /// Returns the [`Int`] on success or an [`Error`](BigIntError)
     /// if the string failed to parse
     pub fn set_string(mut self, n: String, d: String, base: i32) -> Result<Self, IntError> {
-        self.v = BigInt::from_str_radix(n.as_str(), base as u32)?;
+        self.v = Int::reduce(BigInt::from_str_radix(n.as_str(), base as u32)?, &self.m);
         if !d.is_empty() {
             let mut di = Int {
                 m: self.m.clone(),
@@ -346,12 +351,8 @@ impl Scalar for Int {
     /// The `modulus` must already be initialized.
     fn set_int64(self, v: i64) -> Self {
         let mut i = self;
-        i.v = BigInt::from(v);
         // specify euclidean modulus for negative number
-        match i.v.sign() {
-            num_bigint::Sign::Minus => i.v = (i.v % i.m.clone()) + i.m.abs(),
-            _ => i.v %= i.m.clone(),
-        }
+        i.v = Int::reduce(BigInt::from(v), &i.m);
         i
     }
 
-- 
2.43.0


From 97e6324e338bee12a738a1b7eef86478ae7af434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 06/58] fix: Int::unmarshal_binary leaves the receiver alone
 when it rejects its input

---
 src/group/integer_field/integer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 457a4d8..7d16ae0 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -270,12 +270,13 @@ impl BinaryUnmarshaler for Int {
         if self.bo == LittleEndian {
             buf = reverse(&vec![0_u8; buf.len()], &buf.to_vec());
         }
-        self.v = BigInt::from_bytes_be(Plus, buf.as_slice());
-        if matches!(self.v.cmp(&self.m), Greater | Equal) {
+        let v = BigInt::from_bytes_be(Plus, buf.as_slice());
+        if matches!(v.cmp(&self.m), Greater | Equal) {
             return Err(MarshallingError::InvalidInput(
                 "unmarshal_binary: value out of range".to_owned(),
             ));
         }
+        self.v = v;
         Ok(())
     }
 }
-- 
2.43.0


From 7014edf8c23a2090a0bdc4af4516d642033a6dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 07/58] fix: Int::sqrt computes a modular square root

It returned the integer square root of the representative, which is a modular
square root only for perfect squares, and never reported a non-square.
---
 src/group/integer_field/integer.rs | 47 +++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/group/integer_field/integer.rs b/src/group/integer_field/integer.rs
index 7d16ae0..66431a3 100644
--- a/src/group/integer_field/integer.rs
+++ b/src/group/integer_field/integer.rs
@@ -496,7 +496,7 @@ impl Int {
         if a_s.v.sign() == Sign::Minus {
             return Err(IntError::ImaginaryRoot);
         }
-        self.v = a_s.v.sqrt() % a_s.m.clone();
+        self.v = mod_sqrt(&a_s.v, &a_s.m).ok_or(IntError::NotSquare)?;
         self.m = a_s.m.clone();
         Ok(())
     }
@@ -519,6 +519,49 @@ impl Int {
     }
 }
 
+/// [`mod_sqrt()`] computes a square root of `a` modulo the odd prime `p` with the
+/// Tonelli-Shanks algorithm. Returns [`None`] if `a` is not a square.
+fn mod_sqrt(a: &BigInt, p: &BigInt) -> Option<BigInt> {
+    if a.sign() == Sign::NoSign || *p == *TWO {
+        return Some(a.clone());
+    }
+    if jacobi(a, p) != 1 {
+        return None;
+    }
+    // p - 1 = q * 2^s with q odd
+    let mut q = p - &*ONE;
+    let mut s = 0_usize;
+    while &q % &*TWO == BigInt::from(0) {
+        q /= &*TWO;
+        s += 1;
+    }
+    let mut z = TWO.clone();
+    while jacobi(&z, p) != -1 {
+        z += &*ONE;
+    }
+    let mut c = z.modpow(&q, p);
+    let mut t = a.modpow(&q, p);
+    let mut r = a.modpow(&((&q + &*ONE) / &*TWO), p);
+    while t != *ONE {
+        // least i with t^(2^i) = 1
+        let mut i = 0_usize;
+        let mut t2 = t.clone();
+        while t2 != *ONE {
+            t2 = (&t2 * &t2) % p;
+            i += 1;
+            if i == s {
+                return None;
+            }
+        }
+        let b = c.modpow(&(ONE.clone() << (s - i - 1)), p);
+        s = i;
+        c = (&b * &b) % p;
+        t = (&t * &c) % p;
+        r = (&r * &b) % p;
+    }
+    Some(r)
+}
+
 /// [`reverse()`] copies `src` into `dst` in byte-reversed order and returns `dst`,
 /// such that `src[0]` goes into `dst[len-1]` and vice versa.
 /// `dst` and `src` may be the same slice but otherwise must not overlap.
@@ -542,4 +585,6 @@ pub enum IntError {
     NotRepresentable,
     #[error("input is a negative number, square root is imaginary")]
     ImaginaryRoot,
+    #[error("input is not a square modulo the given prime")]
+    NotSquare,
 }
-- 
2.43.0


From 59e32b6e69ede893b41ff0cad6539732026d4641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 08/58] fix: FactoredScalar operations return their result

Add and multiply always returned zero and subtract the old receiver: the reduced
limbs were never written out. The second odd carry pass of the reduction also ran
over the even limbs.
---
 src/group/edwards25519/scalar_test_types.rs | 49 +++++++++++++++++++--
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index ecf1afd..2b8a194 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -394,7 +394,7 @@ fn sc_reduce_limbs(limbs: &mut [i64; 24]) {
         do_carry_centered(limbs, i);
     }
 
-    for i in (0..12).filter(|x| x % 2 != 1) {
+    for i in (0..12).filter(|x| x % 2 != 0) {
         do_carry_centered(limbs, i);
     }
 
@@ -411,7 +411,45 @@ fn sc_reduce_limbs(limbs: &mut [i64; 24]) {
     }
 }
 
-fn sc_add_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
+/// Packs twelve reduced 21-bit limbs into a little-endian byte string.
+fn sc_pack_limbs(s: &mut [u8; 32], limbs: &[i64; 24]) {
+    //s[0] = (limbs[0] >> 0) as u8;
+    s[0] = limbs[0] as u8;
+    s[1] = (limbs[0] >> 8) as u8;
+    s[2] = ((limbs[0] >> 16) | (limbs[1] << 5)) as u8;
+    s[3] = (limbs[1] >> 3) as u8;
+    s[4] = (limbs[1] >> 11) as u8;
+    s[5] = ((limbs[1] >> 19) | (limbs[2] << 2)) as u8;
+    s[6] = (limbs[2] >> 6) as u8;
+    s[7] = ((limbs[2] >> 14) | (limbs[3] << 7)) as u8;
+    s[8] = (limbs[3] >> 1) as u8;
+    s[9] = (limbs[3] >> 9) as u8;
+    s[10] = ((limbs[3] >> 17) | (limbs[4] << 4)) as u8;
+    s[11] = (limbs[4] >> 4) as u8;
+    s[12] = (limbs[4] >> 12) as u8;
+    s[13] = ((limbs[4] >> 20) | (limbs[5] << 1)) as u8;
+    s[14] = (limbs[5] >> 7) as u8;
+    s[15] = ((limbs[5] >> 15) | (limbs[6] << 6)) as u8;
+    s[16] = (limbs[6] >> 2) as u8;
+    s[17] = (limbs[6] >> 10) as u8;
+    s[18] = ((limbs[6] >> 18) | (limbs[7] << 3)) as u8;
+    s[19] = (limbs[7] >> 5) as u8;
+    s[20] = (limbs[7] >> 13) as u8;
+    //s[21] = (limbs[8] >> 0) as u8;
+    s[21] = limbs[8] as u8;
+    s[22] = (limbs[8] >> 8) as u8;
+    s[23] = ((limbs[8] >> 16) | (limbs[9] << 5)) as u8;
+    s[24] = (limbs[9] >> 3) as u8;
+    s[25] = (limbs[9] >> 11) as u8;
+    s[26] = ((limbs[9] >> 19) | (limbs[10] << 2)) as u8;
+    s[27] = (limbs[10] >> 6) as u8;
+    s[28] = ((limbs[10] >> 14) | (limbs[11] << 7)) as u8;
+    s[29] = (limbs[11] >> 1) as u8;
+    s[30] = (limbs[11] >> 9) as u8;
+    s[31] = (limbs[11] >> 17) as u8;
+}
+
+fn sc_add_fact(s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -452,9 +490,10 @@ fn sc_add_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     limbs[11] = c11 + a11;
 
     sc_reduce_limbs(&mut limbs);
+    sc_pack_limbs(s, &limbs);
 }
 
-fn sc_mul_fact(_s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
+fn sc_mul_fact(s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -580,9 +619,10 @@ fn sc_mul_fact(_s: &mut [u8; 32], a: &[u8; 32], b: &[u8; 32]) {
     limbs[22] = a11 * b11;
 
     sc_reduce_limbs(&mut limbs);
+    sc_pack_limbs(s, &limbs);
 }
 
-fn sc_sub_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
+fn sc_sub_fact(s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     let a0 = 2097151 & load3(a);
     let a1 = 2097151 & (load4(&a[2..]) >> 5);
     let a2 = 2097151 & (load3(&a[5..]) >> 2);
@@ -624,6 +664,7 @@ fn sc_sub_fact(_s: &mut [u8; 32], a: &[u8; 32], c: &[u8; 32]) {
     limbs[12] = 16;
 
     sc_reduce_limbs(&mut limbs);
+    sc_pack_limbs(s, &limbs);
 }
 
 fn t_suite() -> SuiteEd25519 {
-- 
2.43.0


From 551674c14f7ae8a75f9f240780cbbbd47328e143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 09/58] fix: SimpleCTScalar::sub computes a - b, not b - a

---
 src/group/edwards25519/scalar_test_types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index 2b8a194..05efe70 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -159,8 +159,8 @@ impl ScalarTrait for SimpleCTScalar {
     }
     fn sub(self, s1: &Self, s2: &Self) -> Self {
         let mut s = self;
-        // a * b + c = -1 * a + c
-        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s1.v, &s2.v);
+        // a * b + c = -1 * s2 + s1
+        sc_mul_add(&mut s.v, &MINUS_ONE.v, &s2.v, &s1.v);
         s
     }
 
-- 
2.43.0


From 81c53a6314d72e16a00cd77d65ceec31f06f62ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 10/58] fix: SimpleCTScalar and FactoredScalar use the encoding
 of Scalar

They accepted over-long input and wrote unreduced scalars out as they were.
---
 src/group/edwards25519/scalar_test_types.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/group/edwards25519/scalar_test_types.rs b/src/group/edwards25519/scalar_test_types.rs
index 05efe70..118729e 100644
--- a/src/group/edwards25519/scalar_test_types.rs
+++ b/src/group/edwards25519/scalar_test_types.rs
@@ -11,7 +11,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     cipher::Stream,
-    encoding::{self, BinaryMarshaler, BinaryUnmarshaler, Marshaling},
+    encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling},
 };
 
 use super::fe::{load3, load4};
@@ -76,13 +76,13 @@ impl Marshaling for SimpleCTScalar {
 
 impl BinaryMarshaler for SimpleCTScalar {
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
-        encoding::marshal_binary(self)
+        self.s.marshal_binary()
     }
 }
 
 impl BinaryUnmarshaler for SimpleCTScalar {
     fn unmarshal_binary(&mut self, data: &[u8]) -> Result<(), MarshallingError> {
-        encoding::unmarshal_binary(self, data)
+        self.s.unmarshal_binary(data)
     }
 }
 
@@ -232,13 +232,13 @@ impl Marshaling for FactoredScalar {
 
 impl BinaryMarshaler for FactoredScalar {
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
-        encoding::marshal_binary(self)
+        self.s.marshal_binary()
     }
 }
 
 impl BinaryUnmarshaler for FactoredScalar {
     fn unmarshal_binary(&mut self, data: &[u8]) -> Result<(), MarshallingError> {
-        encoding::unmarshal_binary(self, data)
+        self.s.unmarshal_binary(data)
     }
 }
 
-- 
2.43.0


From 98e1c927d2bb9274d6507603d487b9ee559fbba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 11/58] fix: Point::is_canonical accepts every y below p

A misplaced parenthesis made it reject canonical encodings with y between
2^255-236 and p-1.
---
 src/group/edwards25519/point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 679424c..7566f50 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -331,7 +331,7 @@ impl PointCanCheckCanonicalAndSmallOrder for Point {
 
         // subtraction might underflow
         c = (((c as u16) - 1) >> 8) as u8;
-        let d = ((0xEDu16.wrapping_sub(1u16.wrapping_sub(b[0] as u16))) >> 8) as u8;
+        let d = (0xEDu16.wrapping_sub(1u16).wrapping_sub(b[0] as u16) >> 8) as u8;
 
         1 - (c & d & 1) == 1
     }
-- 
2.43.0


From 843f9e134942886c5ae6e7515598a1c7be919ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 12/58] fix: Point::unmarshal_binary leaves the receiver alone
 when it rejects its input

It left coordinates that are not on the curve behind.
---
 src/group/edwards25519/point.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 7566f50..efe6699 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -41,11 +41,13 @@ impl BinaryMarshaler for Point {
 }
 impl BinaryUnmarshaler for Point {
     fn unmarshal_binary(&mut self, data: &[u8]) -> Result<(), MarshallingError> {
-        if !self.ge.set_bytes(data) {
+        let mut ge = ExtendedGroupElement::default();
+        if !ge.set_bytes(data) {
             return Err(MarshallingError::InvalidInput(
                 "invalid Ed25519 curve point".to_owned(),
             ));
         }
+        self.ge = ge;
         Ok(())
     }
 }
-- 
2.43.0


From e476fff1a34b541e94cb980d447fd044128990e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 13/58] fix: order points consistently with their equality

The derived order compared projective coordinates, so equal points computed in
different ways did not compare as equal.
---
 src/group/edwards25519/point.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index efe6699..3ff0987 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -20,7 +20,7 @@ use super::{
 
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
-#[derive(Copy, Clone, Eq, Ord, PartialOrd, Debug, Default, Serialize, Deserialize)]
+#[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
@@ -242,6 +242,23 @@ impl PartialEq for Point {
     }
 }
 
+impl Ord for Point {
+    /// [`cmp()`] orders [`points`](Point) by their encoding, consistently with [`eq()`]
+    fn cmp(&self, p2: &Self) -> core::cmp::Ordering {
+        let mut b1 = [0_u8; 32];
+        let mut b2 = [0_u8; 32];
+        self.ge.write_bytes(&mut b1);
+        p2.ge.write_bytes(&mut b2);
+        b1.cmp(&b2)
+    }
+}
+
+impl PartialOrd for Point {
+    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
 impl core::hash::Hash for Point {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         let mut b = [0_u8; 32];
-- 
2.43.0


From 36416eac3e7ebaeb77d68aae5b2a6773319789e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 14/58] fix: multiply points correctly by scalars of 2^255 and
 more

Unreduced scalars, which decoding accepts, violated the precondition of the
multiplication routines and silently gave a wrong point.
---
 src/group/edwards25519/point.rs  | 4 ++++
 src/group/edwards25519/scalar.rs | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 3ff0987..7f5c7db 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -208,6 +208,10 @@ impl group::Point for Point {
     /// [`mul()`] multiplies [`Point`] `p` by [`Scalar`] `s` using the repeated doubling method.
     fn mul(mut self, s: &Scalar, p: Option<&Self>) -> Self {
         let mut a = s.v;
+        // the multiplications below require a[31] <= 127
+        if a[31] > 127 {
+            a = s.mod_full_order();
+        }
 
         match p {
             None => {
diff --git a/src/group/edwards25519/scalar.rs b/src/group/edwards25519/scalar.rs
index 6888733..043d028 100644
--- a/src/group/edwards25519/scalar.rs
+++ b/src/group/edwards25519/scalar.rs
@@ -34,6 +34,13 @@ impl Scalar {
         Int::new_int_bytes(&self.v, &PRIME_ORDER, LittleEndian)
     }
 
+    /// [`mod_full_order()`] returns the bytes of this scalar reduced modulo the order of the
+    /// full group, so that they multiply every point of the curve alike.
+    pub(super) fn mod_full_order(&self) -> [u8; 32] {
+        let mut i = Int::new_int_bytes(&self.v, &FULL_ORDER, LittleEndian);
+        Self::default().set_int(&mut i).v
+    }
+
     fn set_int(mut self, i: &mut Int) -> Self {
         let b = i
             .little_endian(32, 32)
-- 
2.43.0


From 5421566f465b160acb9df5d48d1b2a24cbdaeccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 15/58] fix: deserializing a point rejects coordinates that are
 not on the curve

Derived deserialization accepted any limbs, so a peer could inject points outside
the group, or limbs that overflow field arithmetic, through serialized messages.
---
 src/group/edwards25519/ge.rs    | 38 +++++++++++++++++++++++++++++++++
 src/group/edwards25519/point.rs | 26 ++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/src/group/edwards25519/ge.rs b/src/group/edwards25519/ge.rs
index 37a6cf6..dc0be6b 100644
--- a/src/group/edwards25519/ge.rs
+++ b/src/group/edwards25519/ge.rs
@@ -178,6 +178,44 @@ impl ExtendedGroupElement {
         true
     }
 
+    /// [`is_on_curve()`] checks that the coordinates are within the bounds field operations
+    /// rely on and satisfy `-x^2 + y^2 = z^2 + d * t^2` and `x * y = z * t` with `z != 0`.
+    pub fn is_on_curve(&self) -> bool {
+        // 1.1 * 2^25 and 1.1 * 2^24, see fe_add()
+        let bounds = [36_909_875_u32, 18_454_937];
+        for f in [&self.x, &self.y, &self.z, &self.t] {
+            for (i, limb) in f.iter().enumerate() {
+                if limb.unsigned_abs() > bounds[i % 2] {
+                    return false;
+                }
+            }
+        }
+
+        let (mut xx, mut yy, mut zz) = ([0; 10], [0; 10], [0; 10]);
+        let (mut dtt, mut tt) = ([0; 10], [0; 10]);
+        fe_square(&mut xx, &self.x);
+        fe_square(&mut yy, &self.y);
+        fe_square(&mut zz, &self.z);
+        fe_square(&mut tt, &self.t);
+        fe_mul(&mut dtt, &tt, &D);
+
+        let (mut lhs, mut rhs) = ([0; 10], [0; 10]);
+        let (mut lhs_bytes, mut rhs_bytes) = ([0_u8; 32], [0_u8; 32]);
+        fe_sub(&mut lhs, &yy, &xx);
+        fe_add(&mut rhs, &zz, &dtt);
+        fe_to_bytes(&mut lhs_bytes, &lhs);
+        fe_to_bytes(&mut rhs_bytes, &rhs);
+
+        let (mut xy, mut zt, mut product) = ([0; 10], [0; 10], [0; 10]);
+        fe_mul(&mut xy, &self.x, &self.y);
+        fe_mul(&mut zt, &self.z, &self.t);
+        fe_sub(&mut product, &xy, &zt);
+
+        fe_is_non_zero(&self.z) == 1
+            && lhs_bytes == rhs_bytes
+            && fe_is_non_zero(&product) == 0
+    }
+
     #[allow(dead_code)]
     pub fn string(&self) -> String {
         "extendedGroupElement{\n\t".to_owned()
diff --git a/src/group/edwards25519/point.rs b/src/group/edwards25519/point.rs
index 7f5c7db..6e85783 100644
--- a/src/group/edwards25519/point.rs
+++ b/src/group/edwards25519/point.rs
@@ -21,11 +21,37 @@ use super::{
 const MARSHAL_POINT_ID: [u8; 8] = [b'e', b'd', b'.', b'p', b'o', b'i', b'n', b't'];
 
 #[derive(Copy, Clone, Eq, Debug, Default, Serialize, Deserialize)]
+#[serde(try_from = "RawPoint")]
 pub struct Point {
     ge: ExtendedGroupElement,
     var_time: bool,
 }
 
+/// Serialized form of a [`Point`], not validated yet
+#[derive(Deserialize)]
+#[serde(rename = "Point")]
+struct RawPoint {
+    ge: ExtendedGroupElement,
+    var_time: bool,
+}
+
+impl TryFrom<RawPoint> for Point {
+    type Error = MarshallingError;
+
+    fn try_from(raw: RawPoint) -> Result<Self, Self::Error> {
+        // a point that was never set has no valid coordinates yet
+        if raw.ge != ExtendedGroupElement::default() && !raw.ge.is_on_curve() {
+            return Err(MarshallingError::InvalidInput(
+                "invalid Ed25519 curve point".to_owned(),
+            ));
+        }
+        Ok(Point {
+            ge: raw.ge,
+            var_time: raw.var_time,
+        })
+    }
+}
+
 impl Point {
     pub fn new() -> Self {
         Self::default()
-- 
2.43.0


From 750af2c64e0102cefe55d764ad349e7b43d484db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 16/58] fix: EdDSA built from a key pair derives its nonces
 from the private key

---
 src/sign/eddsa/eddsa_sig.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index 314d057..b36b4e8 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -106,11 +106,17 @@ impl BinaryMarshaler for EdDSA<Curve> {
 impl From<Pair<EdPoint>> for EdDSA<Curve> {
     fn from(pair: Pair<EdPoint>) -> Self {
         let g = Curve::default();
+        // there is no seed to take the nonce prefix from: derive it from the
+        // private key, so that nonces depend on secret data
+        let mut hash = Sha512::new();
+        hash.update(b"kyber-rs eddsa nonce prefix");
+        hash.update(pair.private.v);
+        let prefix = hash.finalize()[32..].to_vec();
         Self {
             secret: g.scalar().set(&pair.private),
             public: g.point().set(&pair.public),
             seed: vec![],
-            prefix: vec![],
+            prefix,
         }
     }
 }
-- 
2.43.0


From ac00387df0482d067c3cef8689190babab3eef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:40 +0000
Subject: [PATCH 17/58] fix: encoding an EdDSA key without a seed is an error,
 not a panic

---
 src/sign/eddsa/eddsa_sig.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index b36b4e8..a1acaa1 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -95,6 +95,11 @@ impl BinaryMarshaler for EdDSA<Curve> {
     /// implementation of `SUPERCOP ref10`, which is `"seed || Public"`.
     fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
         let p_buff = self.public.marshal_binary()?;
+        if self.seed.len() != 32 {
+            return Err(MarshallingError::InvalidInput(
+                "EdDSA key without a 32 byte seed".to_owned(),
+            ));
+        }
 
         let mut eddsa = [0u8; 64];
         eddsa[..32].copy_from_slice(&self.seed);
-- 
2.43.0


From 668ec1477fee6a81938d11d40c4e4c7e0a7ab06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 18/58] fix: public polynomials of different length are not
 equal

---
 src/share/poly.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index be34e4e..2c9583f 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -512,6 +512,9 @@ impl<GROUP: Group> PubPoly<GROUP> {
         if self.g.to_string() != q.g.to_string() {
             return Ok(false);
         }
+        if self.commits.len() != q.commits.len() {
+            return Ok(false);
+        }
         let mut b = true;
         for i in 0..self.threshold() {
             let pb = self.commits[i].marshal_binary()?;
-- 
2.43.0


From ae6a931f9e0fc93c820948feedf4dd63ec7654b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 19/58] fix: evaluating a public polynomial without commitments
 does not panic

---
 src/share/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index 2c9583f..fb1cb2a 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -459,7 +459,7 @@ impl<GROUP: Group> PubPoly<GROUP> {
         let xi = self.g.scalar().set_int64(1 + (i as i64));
         let mut v = self.g.point();
         v = v.null();
-        for j in (0..=(self.threshold() - 1)).rev() {
+        for j in (0..self.threshold()).rev() {
             let v_clone = v.clone();
             v = v.mul(&xi, Some(&v_clone));
             let v_clone = v.clone();
-- 
2.43.0


From 55728016d6849161f2a761183ebd51cf331550f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 20/58] fix: recover_pub_poly uses the indices of the shares
 and keeps the standard base

---
 src/share/poly.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/share/poly.rs b/src/share/poly.rs
index fb1cb2a..517748f 100644
--- a/src/share/poly.rs
+++ b/src/share/poly.rs
@@ -620,13 +620,13 @@ pub fn recover_pub_poly<GROUP: Group>(
 
     let mut acc_poly = PubPoly::new(&g, None, &[]);
 
-    for (j, _) in x.iter().enumerate() {
-        let basis = lagrange_basis(&g, j, x.clone());
+    for j in x.keys() {
+        let basis = lagrange_basis(&g, *j, x.clone());
 
         // compute the L_j * y_j polynomial in point space
-        let tmp = basis.commit(Some(&y[&j]));
+        let tmp = basis.commit(Some(&y[j]));
         if acc_poly.commits.is_empty() {
-            acc_poly = tmp;
+            acc_poly.commits = tmp.commits;
             continue;
         }
 
-- 
2.43.0


From 18091473dbb4dd4014c05972d524c0c6f36e7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 21/58] fix: ECIES decryption of a short ciphertext is an
 error, not a panic

---
 src/encrypt/ecies/ecies_impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/encrypt/ecies/ecies_impl.rs b/src/encrypt/ecies/ecies_impl.rs
index 1f89851..6d038d5 100644
--- a/src/encrypt/ecies/ecies_impl.rs
+++ b/src/encrypt/ecies/ecies_impl.rs
@@ -63,6 +63,9 @@ pub fn decrypt<GROUP: Group>(
     // Reconstruct the ephemeral elliptic curve point
     let mut r_p = group.point();
     let l = group.point_len();
+    if ctx.len() < l {
+        return Err(EciesError::CiphertextTooShort);
+    }
     r_p.unmarshal_binary(&ctx[..l])?;
 
     // Compute shared DH key and derive the symmetric key and nonce via HKDF
@@ -94,6 +97,8 @@ pub enum EciesError {
     MarshalingError(#[from] MarshallingError),
     #[error("dh error")]
     DhError(#[from] DhError),
+    #[error("ciphertext too short")]
+    CiphertextTooShort,
     #[error("hkdf-derived key too short")]
     KeyTooShort,
 }
-- 
2.43.0


From db67a565ba2bf22b01686c4c8a4050bdb37998e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 22/58] fix: sealing or opening into a destination of another
 length does not panic

---
 src/dh/dh_impl.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dh/dh_impl.rs b/src/dh/dh_impl.rs
index 44d431d..8721c2b 100644
--- a/src/dh/dh_impl.rs
+++ b/src/dh/dh_impl.rs
@@ -219,7 +219,7 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let encrypted = DH::aes_encrypt(&self.key, nonce, plaintext, additional_data)?;
         if let Some(d) = dst {
-            d.copy_from_slice(&encrypted);
+            copy_to(d, &encrypted)?;
         }
         Ok(encrypted)
     }
@@ -244,7 +244,7 @@ impl<DH: Dh> AEAD<DH> {
     ) -> Result<Vec<u8>, DhError> {
         let decrypted = DH::aes_decrypt(&self.key, nonce, ciphertext, additional_data)?;
         if let Some(d) = dst {
-            d.copy_from_slice(&decrypted);
+            copy_to(d, &decrypted)?;
         }
         Ok(decrypted)
     }
@@ -254,12 +254,25 @@ impl<DH: Dh> AEAD<DH> {
     }
 }
 
+/// [`copy_to()`] writes `src` at the start of `dst`, which has to be large enough
+fn copy_to(dst: &mut [u8], src: &[u8]) -> Result<(), DhError> {
+    let (dst_len, src_len) = (dst.len(), src.len());
+    dst.get_mut(..src_len)
+        .ok_or_else(|| {
+            DhError::ShortDestination(format!("expected at least {src_len}, got {dst_len}"))
+        })?
+        .copy_from_slice(src);
+    Ok(())
+}
+
 #[derive(Debug, Error)]
 pub enum DhError {
     #[error("marshalling error")]
     MarshalingError(#[from] MarshallingError),
     #[error("wrong key length")]
     WrongKeyLength(String),
+    #[error("destination too short")]
+    ShortDestination(String),
     #[error("aes decryption failed")]
     DecryptionFailed(String),
     #[error("aes encryption failed")]
-- 
2.43.0


From ffe500019bd22e340e15bc505b7802b6a6cef4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 23/58] fix: flushing an XOF does not panic

---
 src/xof/blake3/xof.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index 453722e..a98dc66 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -59,14 +59,8 @@ impl std::io::Write for Xof {
     }
 
     fn flush(&mut self) -> Result<(), std::io::Error> {
-        match &mut self.implementation {
-            HashState::Readable { reader: _ } => {
-                todo!()
-                // Err(std::io::Error::new(std::io::ErrorKind::, "asdf"))
-            }
-            HashState::Writeable { writer: _ } => todo!(),
-        }
-        // self.implementation.flush()
+        // nothing is buffered
+        Ok(())
     }
 }
 impl std::io::Read for Xof {
-- 
2.43.0


From b665e50ddf3cc25177d234eeb5de81778d494687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 24/58] fix: writing to an XOF after reading is no retryable
 error (write_all looped forever)

---
 src/xof/blake3/xof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xof/blake3/xof.rs b/src/xof/blake3/xof.rs
index a98dc66..78f9359 100644
--- a/src/xof/blake3/xof.rs
+++ b/src/xof/blake3/xof.rs
@@ -51,7 +51,7 @@ impl std::io::Write for Xof {
     fn write(&mut self, buf: &[u8]) -> Result<usize, std::io::Error> {
         match &mut self.implementation {
             HashState::Readable { reader: _ } => Err(std::io::Error::new(
-                std::io::ErrorKind::Interrupted,
+                std::io::ErrorKind::Other,
                 "write after read",
             )),
             HashState::Writeable { writer } => writer.write(buf),
-- 
2.43.0


From e68d11c4cba112afe745be4e91fa2cc9551b05c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 25/58] fix: random bits and integers never come from a failed
 randomness stream

---
 src/util/random/random_stream.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/random/random_stream.rs b/src/util/random/random_stream.rs
index 5b0070a..3883c26 100644
--- a/src/util/random/random_stream.rs
+++ b/src/util/random/random_stream.rs
@@ -17,7 +17,9 @@ use crate::{
 pub fn bits(bit_len: u64, exact: bool, rand: &mut impl Stream) -> Vec<u8> {
     let mut b: Vec<u8> = vec![0; ((bit_len + 7) / 8) as usize];
     let b_clone = b.clone();
-    _ = rand.xor_key_stream(&mut b, &b_clone);
+    // without randomness there is no acceptable result
+    rand.xor_key_stream(&mut b, &b_clone)
+        .expect("randomness stream failed");
     let highbits = bit_len & 7;
     if highbits != 0 {
         b[0] &= !(0xff << highbits);
-- 
2.43.0


From 1469a47f66844697d39127320b60ae41afccf865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 26/58] fix: a deal must carry exactly one commitment per
 threshold coefficient

---
 src/share/vss/pedersen/vss.rs | 4 ++++
 src/share/vss/rabin/vss.rs    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 5b6b0c9..b480ee4 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -892,6 +892,10 @@ where
             return Err(VSSError::DealIncompatibleThreshold);
         }
 
+        if d.commitments.len() != d.t {
+            return Err(VSSError::DealInvalidThreshold);
+        }
+
         if self.sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 634ffe1..130a78b 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -874,6 +874,10 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
+        if d.commitments.len() != d.t {
+            return Err(VSSError::DealInvalidThreshold);
+        }
+
         if self.sid != d.session_id {
             return Err(VSSError::DealInvalidSessionId);
         }
-- 
2.43.0


From c1b764dc4409e235f3f1367b78d7fca37e07fa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:40 +0000
Subject: [PATCH 27/58] fix: an encrypted deal with a nonce of wrong length is
 an error, not a panic

---
 src/share/vss/error.rs        | 2 ++
 src/share/vss/pedersen/vss.rs | 7 ++++++-
 src/share/vss/rabin/vss.rs    | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/error.rs b/src/share/vss/error.rs
index 8344ee4..ff0a0af 100644
--- a/src/share/vss/error.rs
+++ b/src/share/vss/error.rs
@@ -34,6 +34,8 @@ pub enum VSSError {
     NoAggregatorForVerifier,
     #[error("public key not found in the list of verifiers")]
     PublicKeyNotFound,
+    #[error("invalid nonce length in encrypted deal")]
+    InvalidNonce,
     #[error("verifier got wrong index from deal")]
     DealWrongIndex,
     #[error("verifier already received a deal")]
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index b480ee4..91cb004 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -650,9 +650,14 @@ where
         // compute shared key and AES526-GCM cipher
         let pre = SUITE::dh_exchange(self.suite, self.longterm.clone(), e.dhkey.clone());
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
+        let nonce: [u8; NONCE_SIZE] = e
+            .nonce
+            .as_slice()
+            .try_into()
+            .map_err(|_| VSSError::InvalidNonce)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            &nonce,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 130a78b..3ee28a0 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -694,9 +694,14 @@ where
         // compute shared key and AES526-GCM cipher
         let pre = SUITE::dh_exchange(self.suite, self.longterm.clone(), e.dhkey.clone());
         let gcm = AEAD::<SUITE>::new(pre, &self.hkdf_context)?;
+        let nonce: [u8; NONCE_SIZE] = e
+            .nonce
+            .as_slice()
+            .try_into()
+            .map_err(|_| VSSError::InvalidNonce)?;
         let decrypted = gcm.open(
             None,
-            e.nonce.as_slice().try_into().unwrap(),
+            &nonce,
             &e.cipher,
             Some(self.hkdf_context.as_slice()),
         )?;
-- 
2.43.0


From cbf7e436f7f604509bded8f42535f2192f66ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 28/58] fix: a verifier's expected threshold is not overridden
 by the deal

---
 src/share/vss/pedersen/vss.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 91cb004..fac9fb5 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -886,7 +886,10 @@ where
             self.commits = d.commitments.clone();
             self.sid = d.session_id.clone();
             self.deal = Some(d.clone());
-            self.t = d.t;
+            // a threshold known in advance is not up to the dealer
+            if self.t == 0 {
+                self.t = d.t;
+            }
         }
 
         if !valid_t(d.t, &self.verifiers) {
-- 
2.43.0


From 887b362d6bf4785d0e0b9e396276291a34b336b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 29/58] fix: a DKG with the default threshold checks and
 requires that threshold

---
 src/share/dkg/pedersen/dkg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6ebd732..0ac394a 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -651,6 +651,7 @@ where
                 let mut agg = vss::Aggregator::<SUITE>::default();
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
+                agg.set_threshold(self.new_t);
                 self.old_aggregators.insert(resp.index, agg);
                 self.old_aggregators.get_mut(&resp.index).unwrap()
             }
@@ -722,7 +723,7 @@ where
             return self.qual().len() >= self.c.old_threshold;
         }
         // in dkg case, the threshold is symmetric -> # verifiers = # dealers
-        self.qual().len() >= self.c.threshold
+        self.qual().len() >= self.new_t
     }
 
     /// [`certified()`] returns `true` if *all* deals are certified. This method should
@@ -1055,7 +1056,7 @@ where
             let mut ver = vss::new_verifier(c.suite, &c.longterm, pubb, &verifier_list)?;
             // set that the number of approval for this deal must be at the given
             // threshold regarding the new nodes. (see config.
-            ver.set_threshold(c.threshold);
+            ver.set_threshold(self.new_t);
             verifiers.insert(i as u32, ver);
         }
         self.verifiers = verifiers;
-- 
2.43.0


From 32ffd18a69dcccd6a283391305a6a3ff141b1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:50 +0000
Subject: [PATCH 30/58] fix: a deal without known threshold is not certified, a
 threshold beyond the verifiers no underflow

---
 src/share/vss/pedersen/vss.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index fac9fb5..a03f547 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1031,8 +1031,9 @@ where
                 }
             }
         }
-        let enough_approvals = approvals >= self.t;
-        let too_much_absents = absent_verifiers > self.verifiers.len() - self.t;
+        // without a known threshold there is no such thing as enough approvals
+        let enough_approvals = self.t > 0 && approvals >= self.t;
+        let too_much_absents = absent_verifiers > self.verifiers.len().saturating_sub(self.t);
         let base_condition = !self.bad_dealer && enough_approvals && !is_complaint;
         if self.timeout {
             return base_condition && !too_much_absents;
-- 
2.43.0


From 753dff9986d43e921b3f116865e1edba1d66187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 31/58] fix: a deal naming another session than its content
 determines gets a complaint

---
 src/share/vss/pedersen/vss.rs | 8 ++++++--
 src/share/vss/rabin/vss.rs    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index a03f547..574f681 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -612,13 +612,15 @@ where
         )?;
 
         let mut r = Response {
-            session_id: sid,
+            session_id: sid.clone(),
             index: self.index as u32,
             status: STATUS_APPROVAL,
             ..Default::default()
         };
         match self.verify_deal(&d, true) {
-            Ok(_) => (),
+            // the deal must belong to the session its content determines
+            Ok(_) if d.session_id == sid => (),
+            Ok(_) => r.status = STATUS_COMPLAINT,
             Err(e) => {
                 r.status = STATUS_COMPLAINT;
                 if let VSSError::DealAlreadyProcessed = e {
@@ -627,6 +629,8 @@ where
             }
         }
 
+        self.sid = sid;
+
         r.signature = schnorr::sign(
             &self.suite,
             &self.longterm.clone(),
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 3ee28a0..807f4a0 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -655,14 +655,16 @@ where
         }
 
         let mut r = Response {
-            session_id: sid,
+            session_id: sid.clone(),
             index: self.index as u32,
             approved: true,
             ..Default::default()
         };
 
         match self.verify_deal(&d, true) {
-            Ok(_) => (),
+            // the deal must belong to the session its content determines
+            Ok(_) if d.session_id == sid => (),
+            Ok(_) => r.approved = false,
             Err(e) => {
                 r.approved = false;
                 if let VSSError::DealAlreadyProcessed = e {
@@ -671,6 +673,8 @@ where
             }
         }
 
+        self.sid = sid;
+
         r.signature = schnorr::sign(
             &self.suite,
             &self.longterm.clone(),
-- 
2.43.0


From 4c1abcf6022a19991b2b622b2bdf0bed0b0de1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 32/58] fix: responses of other sessions recorded before the
 deal do not count

---
 src/share/vss/pedersen/vss.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 574f681..8d1027f 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -617,6 +617,7 @@ where
             status: STATUS_APPROVAL,
             ..Default::default()
         };
+        let session_unknown = self.sid.is_empty();
         match self.verify_deal(&d, true) {
             // the deal must belong to the session its content determines
             Ok(_) if d.session_id == sid => (),
@@ -629,6 +630,10 @@ where
             }
         }
 
+        if session_unknown {
+            // responses may precede the deal, those of other sessions do not count
+            self.responses.retain(|_, resp| resp.session_id == sid);
+        }
         self.sid = sid;
 
         r.signature = schnorr::sign(
-- 
2.43.0


From cf8f0535bfe1147093719ef23801fe2b9bac18da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 33/58] fix: a valid justification turns the complaint into an
 approval

---
 src/share/vss/pedersen/vss.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 8d1027f..1970c12 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -972,24 +972,24 @@ where
             return Err(VSSError::JustificationIndexOutOfBounds);
         }
 
-        if !self.responses.contains_key(&j.index) {
-            return Err(VSSError::JustificationNoComplaints);
-        }
-
-        // clone the resp here
-        let mut r = self.responses[&j.index].clone();
+        let r = match self.responses.get(&j.index) {
+            Some(r) => r,
+            None => return Err(VSSError::JustificationNoComplaints),
+        };
 
         if r.status != STATUS_COMPLAINT {
             return Err(VSSError::JustificationForApproval);
         }
 
-        match self.verify_deal(&j.deal, false) {
-            Ok(_) => r.status = STATUS_APPROVAL,
-            Err(err) => {
-                // if one justification is bad, then flag the dealer as malicious
-                self.bad_dealer = true;
-                return Err(err);
-            }
+        if let Err(err) = self.verify_deal(&j.deal, false) {
+            // if one justification is bad, then flag the dealer as malicious
+            self.bad_dealer = true;
+            return Err(err);
+        }
+
+        // the complaint becomes an approval
+        if let Some(r) = self.responses.get_mut(&j.index) {
+            r.status = STATUS_APPROVAL;
         }
         Ok(())
     }
-- 
2.43.0


From d192467b1c7d513195ded81bf1b09bc0f729eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 34/58] fix: a justification counts only if signed by the
 dealer, for this session and the complainer's share

---
 src/share/dkg/pedersen/dkg.rs | 20 ++++++++++---------
 src/share/vss/error.rs        |  4 ++++
 src/share/vss/pedersen/vss.rs | 18 ++++++++++++++++--
 src/share/vss/rabin/vss.rs    | 36 ++++++++++++++++++++++-------------
 4 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 0ac394a..657399f 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -670,16 +670,18 @@ where
         // status is complaint and it is about our deal
         let deal = self.dealer.plaintext_deal(resp.response.index as usize)?; // dkg: resharing response can't get deal. BUG - REPORT"
 
-        let j = Justification {
-            index: self.oidx as u32,
-            justification: vss::Justification {
-                session_id: s_id,
-                index: resp.response.index, // good index because of signature check
-                deal: deal.clone(),
-                signature: Vec::new(),
-            },
+        let mut justification = vss::Justification {
+            session_id: s_id,
+            index: resp.response.index, // good index because of signature check
+            deal: deal.clone(),
+            signature: Vec::new(),
         };
-        Ok(Some(j))
+        let msg = justification.clone().hash(self.suite)?;
+        justification.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
+        Ok(Some(Justification {
+            index: self.oidx as u32,
+            justification,
+        }))
     }
 
     /// [`process_justification()`] takes a [`Justification`] and validates it. It returns an
diff --git a/src/share/vss/error.rs b/src/share/vss/error.rs
index ff0a0af..f2b7813 100644
--- a/src/share/vss/error.rs
+++ b/src/share/vss/error.rs
@@ -58,6 +58,10 @@ pub enum VSSError {
     JustificationNoComplaints,
     #[error("justification received for an approval")]
     JustificationForApproval,
+    #[error("receiving inconsistent sessionID in justification")]
+    JustificationInconsistentSessionId,
+    #[error("justification does not reveal the share of the complainer")]
+    JustificationWrongIndex,
     #[error("all deals need to have same session id")]
     DealsSameID,
 }
diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 1970c12..e05712e 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -265,7 +265,7 @@ impl<SUITE: Suite> Display for Justification<SUITE> {
 
 impl<SUITE: Suite> Justification<SUITE> {
     /// [`hash()`] returns the hash of a [`Justification`].
-    fn hash(self, s: SUITE) -> Result<Vec<u8>, VSSError> {
+    pub(crate) fn hash(self, s: SUITE) -> Result<Vec<u8>, VSSError> {
         let mut h = s.hash();
         h.update("justification".as_bytes());
         h.update(&self.session_id);
@@ -552,6 +552,8 @@ pub fn new_verifier<SUITE: Suite>(
         return Err(VSSError::PublicKeyNotFound);
     }
     let c = context(suite, dealer_key, verifiers);
+    let mut aggregator = new_empty_aggregator(suite, verifiers);
+    aggregator.dealer = dealer_key.clone();
     Ok(Verifier {
         suite,
         longterm: longterm.clone(),
@@ -560,7 +562,7 @@ pub fn new_verifier<SUITE: Suite>(
         pubb,
         index,
         hkdf_context: c,
-        aggregator: Some(new_empty_aggregator(suite, verifiers)),
+        aggregator: Some(aggregator),
     })
 }
 
@@ -981,12 +983,24 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
+        // only the complainer's own share, in this session, justifies
+        if !self.sid.is_empty() && j.session_id != self.sid {
+            return Err(VSSError::JustificationInconsistentSessionId);
+        }
+        if j.deal.sec_share.i != j.index as usize {
+            return Err(VSSError::JustificationWrongIndex);
+        }
+
         if let Err(err) = self.verify_deal(&j.deal, false) {
             // if one justification is bad, then flag the dealer as malicious
             self.bad_dealer = true;
             return Err(err);
         }
 
+        // only the dealer can justify
+        let msg = j.clone().hash(self.suite)?;
+        schnorr::verify(self.suite, &self.dealer, &msg, &j.signature)?;
+
         // the complaint becomes an approval
         if let Some(r) = self.responses.get_mut(&j.index) {
             r.status = STATUS_APPROVAL;
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 807f4a0..749e7b3 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -952,28 +952,38 @@ where
             return Err(VSSError::JustificationIndexOutOfBounds);
         }
 
-        if !self.responses.contains_key(&j.index) {
-            return Err(VSSError::JustificationNoComplaints);
-        }
-
-        // clone the resp here
-        let mut r = self.responses[&j.index].clone();
+        let r = match self.responses.get(&j.index) {
+            Some(r) => r,
+            None => return Err(VSSError::JustificationNoComplaints),
+        };
 
         if r.approved {
             return Err(VSSError::JustificationForApproval);
         }
 
-        let verification = self.verify_deal(&j.deal, false);
-        if verification.is_err() {
+        // only the complainer's own share, in this session, justifies
+        if j.session_id != self.sid {
+            return Err(VSSError::JustificationInconsistentSessionId);
+        }
+        if j.deal.sec_share.i != j.index as usize {
+            return Err(VSSError::JustificationWrongIndex);
+        }
+
+        if let Err(err) = self.verify_deal(&j.deal, false) {
+            // if one justification is bad, then flag the dealer as malicious
             self.bad_dealer = true;
-        } else {
-            r.approved = true
+            return Err(err);
         }
 
-        // add the updated resp
-        self.responses.insert(j.index, r);
+        // only the dealer can justify
+        let msg = j.clone().hash(self.suite)?;
+        schnorr::verify(self.suite, &self.dealer, &msg, &j.signature)?;
 
-        verification
+        // the complaint becomes an approval
+        if let Some(r) = self.responses.get_mut(&j.index) {
+            r.approved = true;
+        }
+        Ok(())
     }
 
     pub fn add_response(&mut self, r: &Response) -> Result<(), VSSError> {
-- 
2.43.0


From 54cbab79be22fdfb737496a241750a7d483aceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 35/58] fix: a justified complainer uses the justified deal,
 other verifiers do not take it for their own

---
 src/share/vss/pedersen/vss.rs | 15 ++++++++++++++-
 src/share/vss/rabin/vss.rs    | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index e05712e..14c8866 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -991,7 +991,13 @@ where
             return Err(VSSError::JustificationWrongIndex);
         }
 
-        if let Err(err) = self.verify_deal(&j.deal, false) {
+        // the revealed deal is the complainer's: whoever still waits for its own
+        // deal does not keep it
+        let verification = match self.deal {
+            Some(_) => self.verify_deal(&j.deal, false),
+            None => self.clone().verify_deal(&j.deal, false),
+        };
+        if let Err(err) = verification {
             // if one justification is bad, then flag the dealer as malicious
             self.bad_dealer = true;
             return Err(err);
@@ -1001,6 +1007,13 @@ where
         let msg = j.clone().hash(self.suite)?;
         schnorr::verify(self.suite, &self.dealer, &msg, &j.signature)?;
 
+        // and the complainer has its valid deal at last
+        if let Some(d) = self.deal.as_mut() {
+            if d.sec_share.i == j.deal.sec_share.i {
+                *d = j.deal.clone();
+            }
+        }
+
         // the complaint becomes an approval
         if let Some(r) = self.responses.get_mut(&j.index) {
             r.status = STATUS_APPROVAL;
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 749e7b3..cc11911 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -969,7 +969,13 @@ where
             return Err(VSSError::JustificationWrongIndex);
         }
 
-        if let Err(err) = self.verify_deal(&j.deal, false) {
+        // the revealed deal is the complainer's: whoever still waits for its own
+        // deal does not keep it
+        let verification = match self.deal {
+            Some(_) => self.verify_deal(&j.deal, false),
+            None => self.clone().verify_deal(&j.deal, false),
+        };
+        if let Err(err) = verification {
             // if one justification is bad, then flag the dealer as malicious
             self.bad_dealer = true;
             return Err(err);
@@ -979,6 +985,13 @@ where
         let msg = j.clone().hash(self.suite)?;
         schnorr::verify(self.suite, &self.dealer, &msg, &j.signature)?;
 
+        // and the complainer has its valid deal at last
+        if let Some(d) = self.deal.as_mut() {
+            if d.sec_share.i == j.deal.sec_share.i {
+                *d = j.deal.clone();
+            }
+        }
+
         // the complaint becomes an approval
         if let Some(r) = self.responses.get_mut(&j.index) {
             r.approved = true;
-- 
2.43.0


From d33bdf181b6308d54c3de287e06f09fa8a4bdfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:38 +0000
Subject: [PATCH 36/58] fix: deals with other commitments than the session's
 are rejected

---
 src/share/vss/pedersen/vss.rs | 2 +-
 src/share/vss/rabin/vss.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 14c8866..52df721 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -915,7 +915,7 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if self.sid != d.session_id {
+        if self.sid != d.session_id || self.commits != d.commitments {
             return Err(VSSError::DealInvalidSessionId);
         }
 
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index cc11911..f8bbb7b 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -887,7 +887,7 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
-        if self.sid != d.session_id {
+        if self.sid != d.session_id || self.commits != d.commitments {
             return Err(VSSError::DealInvalidSessionId);
         }
 
-- 
2.43.0


From 1388b93e0dfccd95c671b75c7472ecd2b98eac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 37/58] fix: a dealer counts the complaints it justified as
 approvals

---
 src/share/vss/pedersen/vss.rs | 3 +++
 src/share/vss/rabin/vss.rs    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 52df721..bb6dd53 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -422,6 +422,9 @@ where
         let sig = schnorr::sign(&self.suite, &self.long, msg)?;
         j.signature = sig;
 
+        // the dealer draws the same conclusion from it as everybody else
+        let _ = self.aggregator.verify_justification(&j);
+
         Ok(Some(j))
     }
 
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index f8bbb7b..2cb91bc 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -453,6 +453,9 @@ where
         let sig = schnorr::sign(&self.suite, &self.long, msg)?;
         j.signature = sig;
 
+        // the dealer draws the same conclusion from it as everybody else
+        let _ = self.aggregator.verify_justification(&j);
+
         Ok(Some(j))
     }
 
-- 
2.43.0


From 1071098b0ab14338e632ed7a8cedf5f7b7a71f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 38/58] fix: a DKG with duplicate nodes is an error instead of
 a handler without verifiers

---
 src/share/dkg/pedersen/dkg.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 657399f..d987fd6 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -388,7 +388,7 @@ where
         can_receive = true;
         old_threshold = c.public_coeffs.clone().unwrap().len();
     }
-    let dkg = DistKeyGenerator::<SUITE, READ> {
+    let mut dkg = DistKeyGenerator::<SUITE, READ> {
         dealer,
         old_aggregators: HashMap::new(),
         suite: c.suite,
@@ -410,11 +410,7 @@ where
         timeout: false,
     };
     if new_present {
-        let mut dkg_try = dkg.clone();
-        let res_init = dkg_try.init_verifiers(c);
-        if res_init.is_ok() {
-            return Ok(dkg_try);
-        }
+        dkg.init_verifiers(c)?;
     }
     Ok(dkg)
 }
-- 
2.43.0


From bbd043c269c9bd1f0d259c2c6c6a883dea372bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:39 +0000
Subject: [PATCH 39/58] fix: a resharing deal without commitments gets a
 complaint, not a panic

---
 src/share/dkg/pedersen/dkg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index d987fd6..4db4ef7 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -567,7 +567,8 @@ where
             // Check that the received committed share is equal to the one we
             // generate from the known public polynomial
             let expected_pub_share = self.dpub.eval(dd.index as usize);
-            if !expected_pub_share.v.eq(&deal_commits.unwrap()[0]) {
+            let committed = deal_commits.and_then(|commits| commits.first().cloned());
+            if committed != Some(expected_pub_share.v) {
                 return reject();
             }
         }
-- 
2.43.0


From dcb211b9ba03b155844673a764422c7840ec0b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 40/58] fix: rejecting a resharing deal replaces the node's own
 recorded approval

---
 src/share/dkg/pedersen/dkg.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 4db4ef7..6cfe516 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -550,15 +550,16 @@ where
                         .unwrap()
                         .unsafe_set_response_dkg(idx as u32, vss::STATUS_COMPLAINT);
                 }
+                resp.status = vss::STATUS_COMPLAINT;
+                let msg = resp.hash(&self.suite)?;
+                resp.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
                 // indicate to VSS that this dkg's new status is complaint for this
-                // deal
+                // deal, whatever VSS made of the deal on its own
                 self.verifiers
                     .get_mut(&dd.index)
                     .unwrap()
-                    .unsafe_set_response_dkg(self.nidx as u32, vss::STATUS_COMPLAINT);
-                resp.status = vss::STATUS_COMPLAINT;
-                let msg = resp.hash(&self.suite)?;
-                resp.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
+                    .responses
+                    .insert(self.nidx as u32, resp.clone());
                 Ok(Response {
                     index: dd.index,
                     response: resp,
-- 
2.43.0


From 40044531ebb918813dbf679b6837f2e8c0c840a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:52 +0000
Subject: [PATCH 41/58] fix: a justification cannot qualify a resharing deal of
 another secret

---
 src/share/dkg/pedersen/dkg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 6cfe516..ddeddcd 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -692,6 +692,13 @@ where
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
         };
+        if self.is_resharing {
+            // a justified deal has to share the dealer's old share like any other
+            let expected = self.dpub.eval(j.index as usize).v;
+            if j.justification.deal.commitments.first() != Some(&expected) {
+                return Err(DKGError::ShareDoesNotMatchPublicPoly);
+            }
+        }
         Ok(v.process_justification(&j.justification)?)
     }
 
-- 
2.43.0


From b5266d82d252fa871e3b38632c458230fee059ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 42/58] fix: a leaving node counts responses only for actual
 dealers and its own session

---
 src/share/dkg/pedersen/dkg.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index ddeddcd..d178366 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -643,6 +643,9 @@ where
         &mut self,
         resp: &Response,
     ) -> Result<Option<Justification<SUITE>>, DKGError> {
+        if resp.index as usize >= self.c.old_nodes.len() {
+            return Err(DKGError::ResponseFromUnknownDealer);
+        }
         let agg = match self.old_aggregators.contains_key(&resp.index) {
             true => self.old_aggregators.get_mut(&resp.index).unwrap(),
             false => {
@@ -650,6 +653,9 @@ where
                 agg.verifiers = self.c.new_nodes.clone();
                 agg.suite = self.suite;
                 agg.set_threshold(self.new_t);
+                if resp.index as usize == self.oidx {
+                    agg.sid = self.dealer.session_id();
+                }
                 self.old_aggregators.insert(resp.index, agg);
                 self.old_aggregators.get_mut(&resp.index).unwrap()
             }
-- 
2.43.0


From ad8197672a89b49e2099a3538ccb38f297386f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 43/58] fix: renewing with a share of another threshold is an
 error

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index d178366..e5c0af5 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -1084,6 +1084,11 @@ impl<SUITE: Suite> DistKeyShare<SUITE> {
         suite: SUITE,
         g: DistKeyShare<SUITE>,
     ) -> Result<DistKeyShare<SUITE>, DKGError> {
+        // Both have to be shares of polynomials of the same degree
+        if g.commits.is_empty() || g.commits.len() != self.commits.len() {
+            return Err(DKGError::WrongRenewal);
+        }
+
         // Check G(0) = 0*G.
         if !g
             .public()
-- 
2.43.0


From fde17a6ae9398469ff56b52e3aeace91336dacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 44/58] fix: the Rabin DKG timeout applies to the node's own
 deal as well

---
 src/share/dkg/rabin/dkg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 832558f..82df728 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -594,6 +594,7 @@ where
         for (_, v) in self.verifiers.iter_mut() {
             v.set_timeout()
         }
+        self.dealer.set_timeout();
     }
 
     /// [`certified()`] returns `true` if at least `t` deals are certified (see
-- 
2.43.0


From a42ff432be65103904e41b5fa3d081c029c17567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:36 +0000
Subject: [PATCH 45/58] fix: secret commits and reconstruct commits are signed
 for their session

---
 src/share/dkg/rabin/dkg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 82df728..9a71083 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -209,6 +209,7 @@ impl<SUITE: Suite> SecretCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("secretcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         for c in self.commitments.clone() {
             c.marshal_to(&mut h)?
@@ -303,6 +304,7 @@ impl<SUITE: Suite> ReconstructCommits<SUITE> {
     pub fn hash(&self, s: &SUITE) -> Result<Vec<u8>, DKGError> {
         let mut h = s.hash();
         h.update("reconstructcommits".as_bytes());
+        h.update(&self.session_id);
         h.write_u32::<LittleEndian>(self.index)?;
         h.write_u32::<LittleEndian>(self.dealer_index)?;
         let share_buff = self.share.hash(*s)?;
-- 
2.43.0


From ebb9db8f5dce082c8089f4257f0ce125220c41f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 46/58] fix: reconstruct commits must belong to the session and
 carry the sender's share

---
 src/share/dkg/rabin/dkg.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 9a71083..e710046 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -831,6 +831,18 @@ where
             None => return Err(DKGError::ReconstructCommitsInvalidVerifierIndex),
         };
 
+        // the share must be the sender's, of the deal in question
+        if rc.share.i != rc.index as usize {
+            return Err(DKGError::ReconstructCommitsInvalidVerifierIndex);
+        }
+        let v = match self.verifiers.get(&rc.dealer_index) {
+            Some(v) => v,
+            None => return Err(DKGError::MissingVerifier),
+        };
+        if v.session_id() != rc.session_id {
+            return Err(DKGError::ReconstructCommitsInvalidId);
+        }
+
         let msg = rc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &rc.signature.clone())?;
 
-- 
2.43.0


From 0f9e673a142d42b05a12d2d86ebfad01773d4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:49 +0000
Subject: [PATCH 47/58] fix: complaints about commitments a node itself
 rejected lead to reconstruction

---
 src/share/dkg/rabin/dkg.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index e710046..1a001af 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -338,6 +338,9 @@ pub struct DistKeyGenerator<SUITE: Suite> {
     /// list of commitments.
     pub pending_reconstruct: HashMap<u32, Vec<ReconstructCommits<SUITE>>>,
     pub reconstructed: HashMap<u32, bool>,
+    /// secret commitments this node's own share does not match. They are kept to
+    /// judge the complaints of others about them.
+    rejected_commitments: HashMap<u32, PubPoly<SUITE>>,
 }
 
 impl<SUITE: Suite> Debug for DistKeyGenerator<SUITE> {
@@ -455,6 +458,7 @@ pub fn new_dist_key_generator<SUITE: Suite>(
         commitments: HashMap::new(),
         pending_reconstruct: HashMap::new(),
         reconstructed: HashMap::new(),
+        rejected_commitments: HashMap::new(),
         t,
         suite: *suite,
         long: longterm.clone(),
@@ -733,6 +737,7 @@ where
 
             let msg = cc.hash(&self.suite)?;
             cc.signature = schnorr::sign(&self.suite, &self.long, &msg)?;
+            self.rejected_commitments.insert(sc.index, poly);
             return Ok(Some(cc));
         }
         // commitments are fine
@@ -771,11 +776,14 @@ where
         // commits. Verification 4) in DKG Rabin's paper.
         v.verify_deal(&cc.deal, false)?;
 
-        if !self.commitments.contains_key(&cc.dealer_index) {
-            return Err(DKGError::CommitComplaintNoCommits);
-        }
-
-        let secret_commits = self.commitments.get(&cc.dealer_index).unwrap();
+        let secret_commits = match self
+            .commitments
+            .get(&cc.dealer_index)
+            .or_else(|| self.rejected_commitments.get(&cc.dealer_index))
+        {
+            Some(commits) => commits,
+            None => return Err(DKGError::CommitComplaintNoCommits),
+        };
 
         // the secret commits check should fail. Verification 5) in DKG Rabin's
         // paper.
@@ -789,6 +797,7 @@ where
         };
 
         self.commitments.remove(&cc.dealer_index);
+        self.rejected_commitments.remove(&cc.dealer_index);
         let mut rc = ReconstructCommits::<SUITE> {
             session_id: cc.deal.session_id.clone(),
             index: self.index,
-- 
2.43.0


From dcb9ecbd0798504373f3cede34bbae7bd8833a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 48/58] fix: a node's own share counts for reconstruction
 whenever it comes last

---
 src/share/dkg/rabin/dkg.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 1a001af..81b5310 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -816,6 +816,7 @@ where
             .get_mut(&cc.dealer_index)
             .unwrap()
             .push(rc.clone());
+        self.reconstruct_commits(cc.dealer_index)?;
         Ok(rc)
     }
 
@@ -872,6 +873,16 @@ where
         // add it to list of pending shares
         arr.push(rc.clone());
 
+        self.reconstruct_commits(rc.dealer_index)
+    }
+
+    /// recovers the polynomial of the given dealer once enough shares of it are
+    /// pending.
+    fn reconstruct_commits(&mut self, dealer_index: u32) -> Result<(), DKGError> {
+        let arr = match self.pending_reconstruct.get(&dealer_index) {
+            Some(arr) => arr,
+            None => return Ok(()),
+        };
         // check if we can reconstruct commitments
         if arr.len() >= self.t {
             let mut shares = Vec::with_capacity(arr.len());
@@ -885,12 +896,12 @@ where
             // there are more just before
             let pri = recover_pri_poly(&self.suite, &shares, self.t, self.participants.len())?;
             self.commitments.insert(
-                rc.dealer_index,
+                dealer_index,
                 pri.commit(Some(&self.suite.point().base())),
             );
             // note it has been reconstructed.
-            self.reconstructed.insert(rc.dealer_index, true);
-            self.pending_reconstruct.remove(&rc.dealer_index);
+            self.reconstructed.insert(dealer_index, true);
+            self.pending_reconstruct.remove(&dealer_index);
         }
         Ok(())
     }
-- 
2.43.0


From 415d5d5fd0da86f45f8401c5f0e8a1638160bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 49/58] fix: secret commits of wrong length or invalidated
 before are rejected

---
 src/share/dkg/error.rs     |  4 ++++
 src/share/dkg/rabin/dkg.rs | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/share/dkg/error.rs b/src/share/dkg/error.rs
index 8667caf..84c885e 100644
--- a/src/share/dkg/error.rs
+++ b/src/share/dkg/error.rs
@@ -43,6 +43,10 @@ pub enum DKGError {
     SecretCommitsFromNonQUAL,
     #[error("secret commits received with wrong session id")]
     SecretCommitsWrongId,
+    #[error("secret commits were invalidated by a complaint")]
+    SecretCommitsInvalidated,
+    #[error("secret commits of another length than the threshold")]
+    SecretCommitsWrongLength,
     #[error("verifier should exists")]
     MissingVerifier,
     #[error("deal should exists")]
diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index 81b5310..ac383d6 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -718,6 +718,19 @@ where
         let msg = sc.hash(&self.suite)?;
         schnorr::verify(self.suite, &pubb, &msg, &sc.signature.clone())?;
 
+        // once invalidated by a complaint, only the reconstruction counts
+        let invalidated = match self.pending_reconstruct.get(&sc.index) {
+            Some(arr) => arr.iter().any(|rc| rc.index == self.index),
+            None => self.reconstructed.contains_key(&sc.index),
+        };
+        if invalidated {
+            return Err(DKGError::SecretCommitsInvalidated);
+        }
+
+        if sc.commitments.len() != self.t {
+            return Err(DKGError::SecretCommitsWrongLength);
+        }
+
         let deal = match v.deal() {
             Some(d) => d,
             None => return Err(DKGError::MissingDeal),
-- 
2.43.0


From 8f7fb28bf357cd3df4d966374e0854379635c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 50/58] fix: a node's own partial signature is counted once

---
 src/sign/dss/dss_sig.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sign/dss/dss_sig.rs b/src/sign/dss/dss_sig.rs
index 9dd6ae9..1ccdd15 100644
--- a/src/sign/dss/dss_sig.rs
+++ b/src/sign/dss/dss_sig.rs
@@ -229,8 +229,10 @@ impl<SUITE: Suite, DKS: DistKeyShare<SUITE>> DSS<SUITE, DKS> {
         let msg = ps.hash(self.suite.clone())?;
         ps.signature = schnorr::sign(&self.suite, &self.secret, &msg)?;
         if !self.signed {
-            self.partials_idx.insert(self.index, true);
-            self.partials.push(Some(ps.partial.clone()));
+            // it may have come back from a peer already
+            if self.partials_idx.insert(self.index, true).is_none() {
+                self.partials.push(Some(ps.partial.clone()));
+            }
             self.signed = true
         }
         Ok(ps)
-- 
2.43.0


From a568389a30f8c9def093c5ec556f1fe89a6baeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 51/58] fix: the debug rendering of an EdDSA signer hides its
 secrets

---
 src/sign/eddsa/eddsa_sig.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sign/eddsa/eddsa_sig.rs b/src/sign/eddsa/eddsa_sig.rs
index a1acaa1..5dc2cb2 100644
--- a/src/sign/eddsa/eddsa_sig.rs
+++ b/src/sign/eddsa/eddsa_sig.rs
@@ -1,5 +1,7 @@
 /// module eddsa implements the EdDSA signature algorithm according to
 /// RFC8032.
+use core::fmt::{Debug, Formatter};
+
 use digest::Digest;
 use serde::{Deserialize, Serialize};
 use sha2::Sha512;
@@ -14,7 +16,7 @@ use crate::{Group, Point, Scalar};
 
 /// [`EdDSA`] is a structure holding the data necessary to make a series of
 /// `EdDSA signatures`.
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Serialize, Deserialize)]
 pub struct EdDSA<GROUP: Group> {
     /// `secret` being already hashed + bit tweaked
     pub secret: <GROUP::POINT as Point>::SCALAR,
@@ -24,6 +26,14 @@ pub struct EdDSA<GROUP: Group> {
     pub prefix: Vec<u8>,
 }
 
+impl<GROUP: Group> Debug for EdDSA<GROUP> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
+        f.debug_struct("EdDSA")
+            .field("public", &self.public)
+            .finish()
+    }
+}
+
 const GROUP: Curve = Curve::new();
 
 impl EdDSA<Curve> {
-- 
2.43.0


From 5574135f5492932834b19521bd6853d1c2d979f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:23 +0000
Subject: [PATCH 52/58] fix: a Rabin DKG requires its threshold of every deal

---
 src/share/dkg/rabin/dkg.rs |  1 +
 src/share/vss/rabin/vss.rs | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/rabin/dkg.rs b/src/share/dkg/rabin/dkg.rs
index ac383d6..b5b3a82 100644
--- a/src/share/dkg/rabin/dkg.rs
+++ b/src/share/dkg/rabin/dkg.rs
@@ -531,6 +531,7 @@ where
 
         // verifier receiving the dealer's deal
         let mut ver = vss::new_verifier(&self.suite, &self.long, &pubb, &self.participants)?;
+        ver.expected_t = self.t;
 
         let resp = ver.process_encrypted_deal(&dd.deal)?;
 
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 2cb91bc..8f8ab1b 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -514,6 +514,8 @@ pub struct Verifier<SUITE: Suite> {
     pub(crate) index: usize,
     verifiers: Vec<SUITE::POINT>,
     hkdf_context: Vec<u8>,
+    /// threshold the deal must have, 0 if it is up to the dealer
+    pub(crate) expected_t: usize,
     pub(crate) aggregator: Option<Aggregator<SUITE>>,
 }
 
@@ -595,6 +597,7 @@ pub fn new_verifier<SUITE: Suite>(
         pubb,
         index,
         hkdf_context: c,
+        expected_t: 0,
         aggregator: None,
     })
 }
@@ -647,12 +650,14 @@ where
         )?;
 
         if self.aggregator.is_none() {
+            // a threshold known in advance is not up to the dealer
+            let aggregator_t = if self.expected_t == 0 { t } else { self.expected_t };
             self.aggregator = Some(new_aggregator(
                 &self.suite,
                 &self.dealer,
                 &self.verifiers,
                 &d.commitments,
-                t,
+                aggregator_t,
                 &d.session_id,
             ));
         }
@@ -886,6 +891,10 @@ where
             return Err(VSSError::DealInvalidThreshold);
         }
 
+        if d.t != self.t {
+            return Err(VSSError::DealIncompatibleThreshold);
+        }
+
         if d.commitments.len() != d.t {
             return Err(VSSError::DealInvalidThreshold);
         }
-- 
2.43.0


From 985bc2f97fa5ab7f3b69b5d426b7a51ed850fdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 53/58] fix: a deal with an invalid threshold is never
 certified

---
 src/share/vss/pedersen/vss.rs | 4 ++--
 src/share/vss/rabin/vss.rs    | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index bb6dd53..63a62f9 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -1070,8 +1070,8 @@ where
                 }
             }
         }
-        // without a known threshold there is no such thing as enough approvals
-        let enough_approvals = self.t > 0 && approvals >= self.t;
+        // without a valid threshold there is no such thing as enough approvals
+        let enough_approvals = valid_t(self.t, &self.verifiers) && approvals >= self.t;
         let too_much_absents = absent_verifiers > self.verifiers.len().saturating_sub(self.t);
         let base_condition = !self.bad_dealer && enough_approvals && !is_complaint;
         if self.timeout {
diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index 8f8ab1b..a40b2d6 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -1047,7 +1047,8 @@ where
         }
 
         let too_much_complaints = verifiers_unstable > 0 || self.bad_dealer;
-        self.enough_approvals() && !too_much_complaints
+        // with an invalid threshold there is no such thing as enough approvals
+        valid_t(self.t, &self.verifiers) && self.enough_approvals() && !too_much_complaints
     }
 
     /// `unsafe_set_response_DKG()` is an UNSAFE bypass method to allow DKG to use VSS
-- 
2.43.0


From fb5b284232c78bf3539209c687711767d8dba689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 54/58] fix: a Rabin verifier does not use a deal it complained
 about

---
 src/share/vss/rabin/vss.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/share/vss/rabin/vss.rs b/src/share/vss/rabin/vss.rs
index a40b2d6..fcc6413 100644
--- a/src/share/vss/rabin/vss.rs
+++ b/src/share/vss/rabin/vss.rs
@@ -732,9 +732,15 @@ where
     }
 
     /// [`deal()`] returns the [`Deal`] that this verifier has received. It returns
-    /// `None` if the deal is not certified or there is not enough approvals.
+    /// `None` if the deal is not certified or there is not enough approvals, or if
+    /// this verifier complained about it and the complaint is not resolved.
     pub fn deal(&self) -> Option<Deal<SUITE>> {
         self.aggregator.clone()?;
+        if let Some(own) = self.responses.get(&(self.index as u32)) {
+            if !own.approved {
+                return None;
+            }
+        }
         if !self.aggregator.clone().unwrap().enough_approvals()
             || !self.aggregator.clone().unwrap().deal_certified()
         {
-- 
2.43.0


From e42c89c7530db52c54b05c52fed098f46e9483d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 55/58] fix: a dealer's implicit approval counts also for nodes
 that miss its deal

---
 src/share/dkg/pedersen/dkg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index e5c0af5..813f965 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -616,6 +616,11 @@ where
         };
         v.process_response(&resp.response)?;
 
+        // somebody got the deal: its dealer approves it, also for those who did not get theirs
+        if !self.is_resharing && (resp.index as usize) < self.c.new_nodes.len() {
+            v.unsafe_set_response_dkg(resp.index, vss::STATUS_APPROVAL);
+        }
+
         let my_idx = self.oidx as u32;
         if !self.can_issue || resp.index != my_idx {
             // no justification if we dont issue deals or the deal's not from us
-- 
2.43.0


From 8731d459f7deb60da3e39553e922d0aa7c001b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:26 +0000
Subject: [PATCH 56/58] fix: a dealer does not respond to its own Pedersen DKG
 deal

---
 src/share/dkg/pedersen/dkg.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 813f965..170ea23 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -20,7 +20,7 @@ use crate::{
     share::{
         self,
         dkg::DKGError,
-        vss::{pedersen::vss, suite::Suite},
+        vss::{pedersen::vss, suite::Suite, VSSError},
     },
     sign::schnorr,
     util::random::RandStream,
@@ -610,6 +610,10 @@ where
         if !self.verifiers.contains_key(&resp.index) {
             return Err(DKGError::ResponseFromUnknownDealer);
         }
+        if !self.is_resharing && resp.response.index == resp.index {
+            // the dealer's approval of its own deal is implicit
+            return Err(VSSError::ResponseAlreadyExisting.into());
+        }
         let v = match self.verifiers.get_mut(&resp.index) {
             Some(v) => v,
             None => return Err(DKGError::MissingVerifier),
-- 
2.43.0


From 38f8697ea1125eee9fd97bc20f6cd9728df81d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:28 +0000
Subject: [PATCH 57/58] fix: a justification counts only in its complaint's
 session

---
 src/share/vss/pedersen/vss.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/share/vss/pedersen/vss.rs b/src/share/vss/pedersen/vss.rs
index 63a62f9..b5fdda7 100644
--- a/src/share/vss/pedersen/vss.rs
+++ b/src/share/vss/pedersen/vss.rs
@@ -986,8 +986,13 @@ where
             return Err(VSSError::JustificationForApproval);
         }
 
-        // only the complainer's own share, in this session, justifies
-        if !self.sid.is_empty() && j.session_id != self.sid {
+        // only the complainer's own share, in this session, justifies; whoever still
+        // waits for its own deal knows the session from the complaint
+        let sid = match self.sid.is_empty() {
+            true => &r.session_id,
+            false => &self.sid,
+        };
+        if j.session_id != *sid {
             return Err(VSSError::JustificationInconsistentSessionId);
         }
         if j.deal.sec_share.i != j.index as usize {
@@ -998,7 +1003,19 @@ where
         // deal does not keep it
         let verification = match self.deal {
             Some(_) => self.verify_deal(&j.deal, false),
-            None => self.clone().verify_deal(&j.deal, false),
+            None => match session_id(
+                &self.suite,
+                &self.dealer,
+                &self.verifiers,
+                &j.deal.commitments,
+                j.deal.t,
+            ) {
+                Ok(s) if s == *sid && j.deal.session_id == s => {
+                    self.clone().verify_deal(&j.deal, false)
+                }
+                Ok(_) => Err(VSSError::DealInvalidSessionId),
+                Err(e) => Err(e),
+            },
         };
         if let Err(err) = verification {
             // if one justification is bad, then flag the dealer as malicious
-- 
2.43.0


From bb3425e0720be7052904cdbbd800c9fbd056b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 58/58] fix: is_in_qual of a leaving node agrees with its
 qualified set

---
 src/share/dkg/pedersen/dkg.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/share/dkg/pedersen/dkg.rs b/src/share/dkg/pedersen/dkg.rs
index 170ea23..e4b09ad 100644
--- a/src/share/dkg/pedersen/dkg.rs
+++ b/src/share/dkg/pedersen/dkg.rs
@@ -869,16 +869,7 @@ where
     }
 
     pub fn is_in_qual(&self, idx: u32) -> bool {
-        let mut found = false;
-        self.qual_iter(|i, _| {
-            if i == idx {
-                found = true;
-                false
-            } else {
-                true
-            }
-        });
-        found
+        self.qual().contains(&(idx as usize))
     }
 
     fn qual_iter<F>(&self, mut f: F)
-- 
2.43.0

