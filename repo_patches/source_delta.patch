From ae97bc592b0a0dcd70d3e58d1d4cf8e3a16c7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:41 +0000
Subject: [PATCH 01/19] fix: integer_div overflowed for divisors above 2^31

---
 jaxite/jaxite_cggi/matrix_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jaxite/jaxite_cggi/matrix_utils.py b/jaxite/jaxite_cggi/matrix_utils.py
index 4f92f1f..d5df0ab 100644
--- a/jaxite/jaxite_cggi/matrix_utils.py
+++ b/jaxite/jaxite_cggi/matrix_utils.py
@@ -32,13 +32,12 @@ def integer_div(values: jnp.ndarray, divisor: jnp.uint32) -> jnp.ndarray:
   # X//d.
   quotient_floor = values // divisor
 
-  # Then compute the quotient of the remainder (X%d) with rounding, which is
-  # guaranteed to have a numerator small enough to avoid overflow, and always
-  # results in either 0 or 1.
-  rounded_fractional_part = ((values % divisor) + divisor // 2) // divisor
+  # Then round the quotient of the remainder (X%d), which is either 0 or 1. The
+  # comparison with ceil(d/2) avoids (X%d + d//2), which overflows for large d.
+  round_up = (values % divisor) >= divisor - divisor // 2
 
   # Adding them together effectively rounds up or down.
-  return quotient_floor + rounded_fractional_part
+  return quotient_floor + round_up.astype(quotient_floor.dtype)
 
 
 @functools.partial(jax.jit, static_argnames="poly_mod_deg")
-- 
2.43.0


From 7ab1edb1feb34104dc91596b79738d7857f91d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:07 +0000
Subject: [PATCH 02/19] fix: signed_decomposition left a digit equal to the
 base uncarried

---
 jaxite/jaxite_cggi/decomposition.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index 6695858..ae7270f 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -192,20 +192,17 @@ def signed_decomposition(
   for i in range(len(result)):
     unsigned_digit = ((x >> (i * base_log)) & digit_mask) + carry
 
-    # This mask tests for whether a digit is >= B/2, and hence requires a shift
-    # and carry propagation
-    carry_mask = unsigned_digit & base_over_2_threshold
+    # The carry is 1 when the digit is >= B/2, and hence requires a shift and
+    # carry propagation. Note an incoming carry can make the digit equal to B.
+    carry = (unsigned_digit + base_over_2_threshold) >> base_log
 
     # a tricky way to optionally shift by B. The result is re-cast as a uint32,
     # but this is OK because future arithmetic operations as uint32 will wrap
     # around and treat 2**32-1 properly as -1.
     signed_digit = jnp.uint32(
-        jnp.int32(unsigned_digit) - jnp.int32(carry_mask << 1)
+        jnp.int32(unsigned_digit) - jnp.int32(carry << base_log)
     )
 
-    # convert the carry mask to a 0/1 bit to carry to the next digit
-    carry = carry_mask >> (base_log - 1)
-
     result = result.at[i].set(signed_digit)
 
   # reversed because the digits are computed from least-significant bit to
-- 
2.43.0


From 7fdcbacc76ec7d42a5bb4102e70101d1c048bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:03 +0000
Subject: [PATCH 03/19] fix: encode accepted a test polynomial value one past
 the range

---
 jaxite/jaxite_cggi/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 28597ea..b6d155d 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -97,7 +97,9 @@ def encode(
   if test_polynomial_encoding:
     # The test polynomial encoding needs to consider both message and padding
     # bits.
-    message_max = 2**(params.padding_bit_length + params.message_bit_length)
+    message_max = (
+        2 ** (params.padding_bit_length + params.message_bit_length) - 1
+    )
   message_min = dtype(params.message_min)
   if (msg_arr > message_max).any() or (msg_arr < message_min).any():
     raise ValueError(
-- 
2.43.0


From e6532ddd9e36d842054074679786fc40f5682e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:12 +0000
Subject: [PATCH 04/19] fix: Barrett constants were computed with a rounded
 float division

2**s / m is rounded to 53 bits, so for moduli that almost divide 2**s the
floor came out one too large and modular_reduction returned values outside
[0, m), e.g. modulus 1824726041 and z = 3329625124703533680.
---
 jaxite/jaxite_ckks/barrett.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index d2653b2..b3bb331 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -57,7 +57,7 @@ def precompute_barrett_constants(
   barrett_s = [2 * math.ceil(math.log2(m)) for m in moduli]
   barrett_w = [min(s, 32) for s in barrett_s]
   barrett_s_w = [s - w for s, w in zip(barrett_s, barrett_w)]
-  barrett_m = [math.floor(2**s / m) for s, m in zip(barrett_s, moduli)]
+  barrett_m = [2**s // int(m) for s, m in zip(barrett_s, moduli)]
 
   return BarrettConstants(
       m=jnp.array(barrett_m, dtype=jnp.uint64),
-- 
2.43.0


From 5ecfbe8532e7e4c92ac60eb942fafccea21f63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:50 +0000
Subject: [PATCH 05/19] fix: Barrett reduction was wrong above m^2, which NTT
 and basis conversion reach for small moduli

---
 jaxite/jaxite_ckks/barrett.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index b3bb331..036f3d1 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -54,7 +54,9 @@ def precompute_barrett_constants(
     moduli = [moduli]
 
   # TODO(#97): Document with a reference
-  barrett_s = [2 * math.ceil(math.log2(m)) for m in moduli]
+  # The reduction is exact for inputs below 2**s. Unreduced sums of byte-sliced
+  # products exceed m**2 for small moduli, so s must not shrink with m**2.
+  barrett_s = [31 + math.ceil(math.log2(m)) for m in moduli]
   barrett_w = [min(s, 32) for s in barrett_s]
   barrett_s_w = [s - w for s, w in zip(barrett_s, barrett_w)]
   barrett_m = [2**s // int(m) for s, m in zip(barrett_s, moduli)]
-- 
2.43.0


From ee51632ee2f59c6a52c0a7fc68206c3b97be62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:30 +0000
Subject: [PATCH 06/19] fix: rescale wraps when the dropped modulus exceeds
 twice a remaining one

The centred representative of the dropped limb was shifted by one copy of each
remaining modulus only, so with a dropped modulus larger than twice a remaining
modulus it stayed negative and was reinterpreted as an unsigned 64-bit number.
---
 jaxite/jaxite_ckks/rescale.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jaxite/jaxite_ckks/rescale.py b/jaxite/jaxite_ckks/rescale.py
index c713101..732f530 100644
--- a/jaxite/jaxite_ckks/rescale.py
+++ b/jaxite/jaxite_ckks/rescale.py
@@ -181,12 +181,16 @@ class Rescale:
       last_limb_coeffs = last_limb_coeffs.reshape(num_elements, degree, 1)
 
       # Centered reduction simulation
+      remaining_moduli_i64 = jnp.array(remaining_moduli, jnp.int64).reshape(
+          1, 1, -1
+      )
+      # The dropped modulus may be much larger than a remaining modulus, so the
+      # shifted representative is reduced before it is treated as unsigned.
       switched = jnp.where(
           last_limb_coeffs < threshold,
           last_limb_coeffs,
-          jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1)
-          - int(last_modulus)
-          + last_limb_coeffs.astype(jnp.int64),
+          (last_limb_coeffs.astype(jnp.int64) - int(last_modulus))
+          % remaining_moduli_i64,
       )
 
       # Multiply by gammas
-- 
2.43.0


From fa4f7a91b44a2b48942cb515613d5eeb353d834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:35 +0000
Subject: [PATCH 07/19] fix: gen_hmuxrot_key fails when the product of special
 primes exceeds 64 bits

P * beta was handed to NumPy as one integer, which raises OverflowError as soon
as P does not fit in 64 bits (three 30-bit special primes).
---
 jaxite/jaxite_ckks/key_gen.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/key_gen.py b/jaxite/jaxite_ckks/key_gen.py
index 85aafda..49bb836 100644
--- a/jaxite/jaxite_ckks/key_gen.py
+++ b/jaxite/jaxite_ckks/key_gen.py
@@ -282,7 +282,10 @@ def gen_hmuxrot_key(
     dest_sk_ext = sk_ext
 
   p_val = math.prod(p_limbs)
-  scaled_val0 = (p_val * beta) % all_moduli_u64
+  # P may exceed 64 bits, so reduce it with Python integers.
+  scaled_val0 = np.array(
+      [(p_val * beta) % int(m) for m in all_moduli], dtype=np.uint64
+  ).reshape(1, -1)
 
   # key0 is a key-switching key from beta * sk(X^{5^{-j}}) to sk.
   g = pow(5, -j, 2 * degree)
-- 
2.43.0


From c5c7a9b01dcd48013b1630f813743f262ee8d842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:47 +0000
Subject: [PATCH 08/19] fix: sub_2u16 was off by one when the top chunks differ
 by 0xFFFF

The top chunk briefly holds the difference plus one; when that overflowed, the
carry rolled around into chunk 0.
---
 jaxite_ec/finite_field.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jaxite_ec/finite_field.py b/jaxite_ec/finite_field.py
index 81d25f8..38fe31d 100644
--- a/jaxite_ec/finite_field.py
+++ b/jaxite_ec/finite_field.py
@@ -283,9 +283,13 @@ def sub_2u16(
   value_c = jnp.subtract(value_a, value_b)
   value_c = jnp.subtract(value_c, borrow_high_u16_pad_zero_array)
 
+  # The borrow is only taken back from the top chunk after the carries are
+  # settled, so the top chunk may overflow until then. The spare chunk keeps
+  # that carry from rolling around into chunk 0.
+  value_c = jnp.pad(value_c, [(0, 0)] * (value_c.ndim - 1) + [(0, 1)])
   value_c = jax.lax.while_loop(
       check_any_chunk_with_carry, carry_propagation, value_c
-  )
+  )[..., :chunk_num_u16]
   if value_c.ndim == 1:
     value_c = value_c.at[chunk_num_u16 - 1].set(value_c[chunk_num_u16 - 1] - 1)
   else:
-- 
2.43.0


From dbeb8bc8ad8259cbb336a1d2f0dfa74a7035a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:47 +0000
Subject: [PATCH 09/19] fix: RNS negation was wrong for values with a zero
 residue

The 16-bit negation maps 0 to 0 instead of 2^16, and the zero-check variant
masked single residues instead of the whole value, so the residues of the
result no longer belonged to one integer.
---
 jaxite_ec/finite_field.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/jaxite_ec/finite_field.py b/jaxite_ec/finite_field.py
index 38fe31d..9c6602d 100644
--- a/jaxite_ec/finite_field.py
+++ b/jaxite_ec/finite_field.py
@@ -885,10 +885,11 @@ def negate_rns_for_var_add(
   """
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
 
-  return jnp.add(
-      jnp.negative(value_a.astype(jnp.uint16)).astype(jnp.uint32),
-      moduli_sub,
+  # 2^16 - a, in 32 bits: a 16-bit negation would turn a = 0 into 0.
+  neg = jnp.subtract(
+      jnp.uint32(2**16), value_a.astype(jnp.uint16).astype(jnp.uint32)
   )
+  return jnp.add(neg, moduli_sub)
 
 
 @jax.named_call
@@ -920,14 +921,14 @@ def negate_rns_for_var_add_zero_check(
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
   a = value_a.astype(jnp.uint16)
 
-  # Compute two's complement negation: for nonzero a, jnp.negative(a) computes
-  # (2^16 - a).
-  neg = jnp.negative(a).astype(jnp.uint32)
+  # 2^16 - a, in 32 bits: a 16-bit negation would turn a = 0 into 0.
+  neg = jnp.subtract(jnp.uint32(2**16), a.astype(jnp.uint32))
 
-  # Build a branchless mask: 0 if a==0, 1 otherwise.
-  mask = (a != 0).astype(jnp.uint32)
+  # Build a branchless mask: 0 if the value is zero, i.e. all its residues are,
+  # 1 otherwise. A nonzero value may have some zero residues.
+  mask = jnp.any(a != 0, axis=-1, keepdims=True).astype(jnp.uint32)
 
-  # For nonzero a: (2^16 - a) + moduli_sub; for zero: m + 0 multiplied by 0
+  # For a nonzero value: (2^16 - a) + moduli_sub; for zero: multiplied by 0
   # gives 0.
   return (neg + moduli_sub) * mask
 
-- 
2.43.0


From f72d579d3f5cd840c68fc67cf6bec0d79805da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:47 +0000
Subject: [PATCH 10/19] fix: padd_rns_xyzz_pack multiplied by a value outside
 the range the reduction is exact for

x3 is up to seven times the bound of a reduced value, more than the constant
negate_rns_for_var_add adds, so q - x3 was represented as a negative number,
for which the quotient estimate of the RNS reduction is not exact. q - x3 is
now formed from non-negative terms.
---
 jaxite_ec/elliptic_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/elliptic_curve.py b/jaxite_ec/elliptic_curve.py
index bf846d2..20877ab 100644
--- a/jaxite_ec/elliptic_curve.py
+++ b/jaxite_ec/elliptic_curve.py
@@ -662,14 +662,14 @@ def padd_rns_xyzz_pack(
   ppp, q, zz3 = jnp.vsplit(outputs, 3)
 
   # x3 = r * r - ppp - (q + q)
-  # q_x3 = q - x3
+  # q_x3 = q - x3 = 3q + ppp - rr; x3 itself is too large to be negated
   x3 = add_sub_rns_var(
       rr,
       negate_rns_for_var_add(ppp),
       negate_rns_for_var_add(q),
       negate_rns_for_var_add(q),
   )
-  q_x3 = add_sub_rns_var(q, negate_rns_for_var_add(x3))
+  q_x3 = add_sub_rns_var(q, negate_rns_for_var_add(rr), ppp, q, q)
 
   # s1_ppp = s1 * ppp
   # r_q_x3 = r * q_x3
-- 
2.43.0


From 5721de92ce634b5686fc8764f15ffbfcfcaa01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:52 +0000
Subject: [PATCH 11/19] fix: FiniteFieldElement.copy(value) did not give the
 element of that value

copy(0) was taken for copy() and returned the element copied from, and a
negative value was stored unreduced.
---
 jaxite_ec/algorithm/finite_field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 6a3ea36..0c2cd39 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -60,10 +60,10 @@ class FiniteFieldElement:
         FiniteFieldElement: A deep copy of the current finite field element.
     """
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(int(self.value))
     else:
-      obj.value = BigInt(value)
+      obj.value = BigInt(value) % self.prime
     return obj
 
   def __add__(self, other):
@@ -181,7 +181,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
@@ -291,7 +291,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
-- 
2.43.0


From ad0dff04d772a0214b15c666e2729b6832b391ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:52 +0000
Subject: [PATCH 12/19] fix: Barrett and Montgomery addition left a sum equal
 to the prime unreduced

---
 jaxite_ec/algorithm/finite_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 0c2cd39..dd488ba 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -142,7 +142,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
     if self.prime != other.prime:
       raise ValueError("Cannot add two numbers in different Fields")
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
@@ -241,7 +241,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
       raise ValueError("Cannot add two numbers in different Fields")
     assert other.montgomeryized
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
-- 
2.43.0


From 7d14e0e9e08e1f50b1bd4a08dc7c80eacb0cc5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:52 +0000
Subject: [PATCH 13/19] fix: ceil_log2 raised TypeError, and its floating-point
 stand-in rounded down

For a prime just above a power of two, log2 in double precision is the exponent
itself, so Montgomery and Barrett elements used a radix below the prime.
---
 jaxite_ec/algorithm/big_integer.py  |  4 ++--
 jaxite_ec/algorithm/finite_field.py | 11 ++---------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/jaxite_ec/algorithm/big_integer.py b/jaxite_ec/algorithm/big_integer.py
index d79b763..63e5be8 100644
--- a/jaxite_ec/algorithm/big_integer.py
+++ b/jaxite_ec/algorithm/big_integer.py
@@ -151,10 +151,10 @@ class GMPBigInteger:
     return NotImplemented
 
   def ceil_log2(self):
-    """Calculate the base-2 logarithm of the GMPBigInteger."""
+    """Calculate the base-2 logarithm of the GMPBigInteger, rounded up."""
     if self.value <= 0:
       raise ValueError("log2 is only defined for positive integers")
-    return GMPBigInteger(gmpy2.ceil(gmpy2.log2(self.value)))
+    return GMPBigInteger((self.value - 1).bit_length())
 
   def __int__(self):
     return int(self.value)
diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index dd488ba..676c33c 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -1,7 +1,6 @@
 """Finite field elements for elliptic curve cryptography."""
 
 import copy
-import math
 
 from jaxite.jaxite_ec.algorithm import big_integer
 
@@ -121,10 +120,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
   def __init__(self, value, prime, k=None):
     super().__init__(value, prime)
     if k == None:
-      if isinstance(prime, BigInt):
-        self.two_k = prime.ceil_log2() * 2
-      else:
-        self.two_k = BigInt(math.ceil(math.log2(prime))) * 2
+      self.two_k = self.prime.ceil_log2() * 2
     else:
       self.two_k = BigInt(2 * k)
     self.mu = BigInt(2) ** self.two_k / prime
@@ -196,10 +192,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
   def __init__(self, value, prime, k=None):
     super().__init__(value, prime)
     if not k:
-      if isinstance(prime, BigInt):
-        self.k = prime.ceil_log2()
-      else:
-        self.k = BigInt(math.ceil(math.log2(prime)))
+      self.k = self.prime.ceil_log2()
     else:
       self.k = BigInt(k)
 
-- 
2.43.0


From ed3fb850eddf20e33552d302e02744ae320ce4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:52 +0000
Subject: [PATCH 14/19] fix: powers of Montgomery field elements were taken of
 the Montgomery form

The inherited __pow__ returned a plain element holding (a R)^e.
---
 jaxite_ec/algorithm/finite_field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 676c33c..58af82b 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -281,6 +281,13 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
     new_instance.value = reduced_result
     return new_instance
 
+  def __pow__(self, exponent):
+    base = self.de_montgomeryize(self.value)
+    result = base.__pow__(exponent, self.prime.value)
+    new_instance = self.copy()
+    new_instance.value = self.montgomeryize(result)
+    return new_instance
+
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-- 
2.43.0


From 795a6163daaf2718490a5a7324ecb99ac726ebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:32 +0000
Subject: [PATCH 15/19] fix: affine reference points could not be built from x
 and y, nor doubled

generate_formal_coordinates asserted a third coordinate it never added, which
also stopped every addition, and the doubling multiplied a field element by an
int. Conversion to XYZZ now drops the third coordinate.
---
 jaxite_ec/algorithm/elliptic_curve.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 0ff77cf..b41dd7a 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -222,7 +222,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
   def double_general(self, point_a: ECPoint[FieldEle]):
     x1 = point_a[0]
     y1 = point_a[1]
-    slope = (x1 * x1 * 3 + self.a) / (y1 * 2)
+    x1_sq = x1 * x1
+    slope = (x1_sq + x1_sq + x1_sq + self.a) / (y1 + y1)
     cx = slope * slope - x1 - x1
     cy = slope * (x1 - cx) - y1
     return ECPoint[FieldEle]([cx, cy], self)
@@ -265,7 +266,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
       else:
         formal_coordinates.append(self.ff_zero.copy(coordinate))
     if coordinate_length == 2:
-      assert len(formal_coordinates) == 3
+      formal_coordinates.append(self.ff_one.copy())
+    assert len(formal_coordinates) == 3
     return formal_coordinates
 
 
@@ -551,8 +553,10 @@ class ECCSWeierstrassXYZZ(ECCSWeierstrass):
         == CoordinateSystemType.WEIERSTRASS_AFFINE
     )
     new_point = point_a.copy()
-    new_point.append(self.ff_one)
-    new_point.append(self.ff_one)
+    if new_point.coordinates is not None:
+      del new_point.coordinates[2:]
+      new_point.append(self.ff_one)
+      new_point.append(self.ff_one)
     new_point.set_coordinate_system(self)
     return new_point
 
-- 
2.43.0


From 3a9bf9e54690b7ccc977f557296096c003638405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:32 +0000
Subject: [PATCH 16/19] fix: reference addition was wrong for P + (-P) and for
 one point in two representations

The chord formulas divide by the difference of the abscissae, or carry it in
the denominator; when it is zero the sum is the point at infinity, or the two
operands are the same point, which comparing coordinates does not notice.
---
 jaxite_ec/algorithm/elliptic_curve.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index b41dd7a..2bbd7df 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -236,6 +236,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
 
     if point_a == point_b:
       result = self.double_general(point_a)
+    elif point_a[0] == point_b[0]:
+      result = self.generate_point(zero=True)
     else:
       result = self.add_general(point_a, point_b)
 
@@ -303,8 +305,12 @@ class ECCSWeierstrassProjective(ECCSWeierstrass):
       raise NotImplementedError
 
     u = y2 * z1 - y1
-    uu = u * u
     v = x2 * z1 - x1
+    if v == self.ff_zero:
+      if u == self.ff_zero:
+        return self.double_general(point_a)
+      return self.generate_point(zero=True)
+    uu = u * u
     vv = v * v
     vvv = v * vv
     r = vv * x1
@@ -356,6 +362,8 @@ class ECCSWeierstrassProjective(ECCSWeierstrass):
     t0 = t3 * t1
     z3 = t5 * z3
     z3 = z3 + t0
+    if z3 == self.ff_zero:
+      return self.generate_point(zero=True)
 
     return ECPoint[FieldEle]([x3, y3, z3], self)
 
@@ -487,6 +495,10 @@ class ECCSWeierstrassXYZZ(ECCSWeierstrass):
     s2 = y2 * zzz1
     p = u2 - u1
     r = s2 - s1
+    if p == self.ff_zero:
+      if r == self.ff_zero:
+        return self.double_general(point_a)
+      return self.generate_point(zero=True)
     pp = p * p
     ppp = p * pp
     q = u1 * pp
-- 
2.43.0


From 4644a3534ff1db3a73db16f16b4a39eb167065d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:32 +0000
Subject: [PATCH 17/19] fix: twisted generate_point(zero=True) iterated over
 the missing coordinates

---
 jaxite_ec/algorithm/elliptic_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 2bbd7df..f227cd1 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -611,7 +611,7 @@ class ECCSTwistedEdwardsExtended(ECCSWeierstrass):
       zero: bool = False,
       twist: bool = True,
   ) -> ECPoint[T]:
-    if twist:
+    if twist and not zero:
       ff_coordinates = []
       for coordinate in coordinates:  # pyrefly: ignore[not-iterable]
         if isinstance(coordinate, FieldEle):
-- 
2.43.0


From d4d076ff554d2bfd426817991c411098e0b1817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 18/19] fix: bit_slice_to_bytes took the top bit of each byte
 from the one before

The byte was appended before its last bit had been stored, so bit 7 of every
byte was the previous byte's (and False in the first).
---
 jaxite/jaxite_bool/type_converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_bool/type_converters.py b/jaxite/jaxite_bool/type_converters.py
index 4d1ceba..710542e 100644
--- a/jaxite/jaxite_bool/type_converters.py
+++ b/jaxite/jaxite_bool/type_converters.py
@@ -52,9 +52,9 @@ def bit_slice_to_bytes(bit_slice: List[bool]) -> bytes:
 
   char_bit_slice: List[bool] = [False] * 8
   for i, entry in enumerate(bit_slice):
+    char_bit_slice[i % 8] = entry
     if (i + 1) % 8 == 0:
       result.append(bit_slice_to_u8(char_bit_slice))
-    char_bit_slice[i % 8] = entry
 
   return bytes(result)
 
-- 
2.43.0


From 0d14635c35bb79594d089ac20a6df1cb3beb85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:19 +0000
Subject: [PATCH 19/19] fix: the lookup table named cmux had only half of its
 rows

lut_by_name built every named gate with two inputs; cmux has three, so the
rows for a true first input were left out of the table and the test polynomial.
---
 jaxite/jaxite_bool/lut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_bool/lut.py b/jaxite/jaxite_bool/lut.py
index f4c7a01..d4c7dc3 100644
--- a/jaxite/jaxite_bool/lut.py
+++ b/jaxite/jaxite_bool/lut.py
@@ -136,8 +136,10 @@ class LutCache:
           f'Unknown gate name "{name}". Use `get_lut` or else use a '
           f'named 2-bit gate from {list(FUNC_NAME_TO_LUT2.keys())}'
       )
-    key = FUNC_NAME_TO_LUT2[name].truth_table
-    return self.lut(num_inputs=2, lut_as_int=key)
+    named = FUNC_NAME_TO_LUT2[name]
+    return self.lut(
+        num_inputs=named.num_inputs, lut_as_int=named.truth_table
+    )
 
   def lut_poly(self, num_inputs: int, lut_as_int: int) -> rlwe.RlweCiphertext:
     return self.lut(num_inputs, lut_as_int).as_rlwe_test_polynomial(
-- 
2.43.0

