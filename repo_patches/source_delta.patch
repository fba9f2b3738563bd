From 7d57f985f7df7fbc70376005362d09cba57cdc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 01/26] fix: look up named gates with their own number of
 inputs

lut_by_name always built a 2-input table, so the 3-input cmux table (and its
test polynomial) lost its upper four rows.
---
 jaxite/jaxite_bool/lut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_bool/lut.py b/jaxite/jaxite_bool/lut.py
index f4c7a01..0f917b9 100644
--- a/jaxite/jaxite_bool/lut.py
+++ b/jaxite/jaxite_bool/lut.py
@@ -136,8 +136,10 @@ class LutCache:
           f'Unknown gate name "{name}". Use `get_lut` or else use a '
           f'named 2-bit gate from {list(FUNC_NAME_TO_LUT2.keys())}'
       )
-    key = FUNC_NAME_TO_LUT2[name].truth_table
-    return self.lut(num_inputs=2, lut_as_int=key)
+    table = FUNC_NAME_TO_LUT2[name]
+    return self.lut(
+        num_inputs=table.num_inputs, lut_as_int=table.truth_table
+    )
 
   def lut_poly(self, num_inputs: int, lut_as_int: int) -> rlwe.RlweCiphertext:
     return self.lut(num_inputs, lut_as_int).as_rlwe_test_polynomial(
-- 
2.43.0


From 27677ac807ca9752da2477c6651ca4919b610474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:06 +0000
Subject: [PATCH 02/26] fix: keep the top bit of each byte in
 bit_slice_to_bytes

The byte was emitted before its eighth bit was stored, so every byte got the
top bit of the byte before it (and False for the first).
---
 jaxite/jaxite_bool/type_converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_bool/type_converters.py b/jaxite/jaxite_bool/type_converters.py
index 4d1ceba..710542e 100644
--- a/jaxite/jaxite_bool/type_converters.py
+++ b/jaxite/jaxite_bool/type_converters.py
@@ -52,9 +52,9 @@ def bit_slice_to_bytes(bit_slice: List[bool]) -> bytes:
 
   char_bit_slice: List[bool] = [False] * 8
   for i, entry in enumerate(bit_slice):
+    char_bit_slice[i % 8] = entry
     if (i + 1) % 8 == 0:
       result.append(bit_slice_to_u8(char_bit_slice))
-    char_bit_slice[i % 8] = entry
 
   return bytes(result)
 
-- 
2.43.0


From 9450379a0662a0147259b24ebce986c89d157354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:07 +0000
Subject: [PATCH 03/26] fix: round integer_div correctly for divisors close to
 2**32

Adding half the divisor to the remainder wrapped around in uint32 for divisors
above 2/3 * 2**32, so such quotients were rounded down.
---
 jaxite/jaxite_cggi/matrix_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jaxite/jaxite_cggi/matrix_utils.py b/jaxite/jaxite_cggi/matrix_utils.py
index 4f92f1f..6cba1fb 100644
--- a/jaxite/jaxite_cggi/matrix_utils.py
+++ b/jaxite/jaxite_cggi/matrix_utils.py
@@ -32,10 +32,13 @@ def integer_div(values: jnp.ndarray, divisor: jnp.uint32) -> jnp.ndarray:
   # X//d.
   quotient_floor = values // divisor
 
-  # Then compute the quotient of the remainder (X%d) with rounding, which is
-  # guaranteed to have a numerator small enough to avoid overflow, and always
-  # results in either 0 or 1.
-  rounded_fractional_part = ((values % divisor) + divisor // 2) // divisor
+  # Then round the quotient of the remainder (X%d), which always results in
+  # either 0 or 1. Comparing X%d >= d - d//2 is the same as testing whether
+  # (X%d + d//2)//d is 1, but cannot overflow for d close to 2**32.
+  remainder = values % divisor
+  rounded_fractional_part = (remainder >= divisor - divisor // 2).astype(
+      quotient_floor.dtype
+  )
 
   # Adding them together effectively rounds up or down.
   return quotient_floor + rounded_fractional_part
-- 
2.43.0


From 940910a2836a034b0076aa67ead357add2bf31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:07 +0000
Subject: [PATCH 04/26] fix: extract_noise across the signed boundary

The plaintext and its rounding were made signed before subtracting, so slightly
negative noise around 2**31 was reported as about 2**32.
---
 jaxite/jaxite_cggi/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 28597ea..56d8d38 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -180,4 +180,4 @@ def extract_noise(
 ) -> int:
   """Extracts the noise bits of a plaintext as a (signed) int."""
   rounded = remove_noise(plaintext, encoding_params)
-  return int(jnp.int32(plaintext)) - int(jnp.int32(rounded))
+  return int(jnp.int32(plaintext - rounded))
-- 
2.43.0


From f51d65e14f49cf7ad7a2a2ce720fa45eacfa4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:07 +0000
Subject: [PATCH 05/26] fix: reject test polynomial coefficients that do not
 fit

The bound was one too large: 2**(padding + message bits) was accepted and then
shifted out of the plaintext, which silently encoded 0.
---
 jaxite/jaxite_cggi/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/encoding.py b/jaxite/jaxite_cggi/encoding.py
index 56d8d38..4f41722 100644
--- a/jaxite/jaxite_cggi/encoding.py
+++ b/jaxite/jaxite_cggi/encoding.py
@@ -97,7 +97,9 @@ def encode(
   if test_polynomial_encoding:
     # The test polynomial encoding needs to consider both message and padding
     # bits.
-    message_max = 2**(params.padding_bit_length + params.message_bit_length)
+    message_max = (
+        2 ** (params.padding_bit_length + params.message_bit_length) - 1
+    )
   message_min = dtype(params.message_min)
   if (msg_arr > message_max).any() or (msg_arr < message_min).any():
     raise ValueError(
-- 
2.43.0


From 11a702077119cb1ad867cceabb87ff58e1248271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:07 +0000
Subject: [PATCH 06/26] fix: carry out of a signed digit that the carry in
 raised to B

The digit B - 1 with a carry in becomes B, which has the bit of B/2 clear and was
emitted as it is: out of the documented range [-B/2, B/2), and off by B * B^i from
the truncated representation when it is in the lowest digit kept.
---
 jaxite/jaxite_cggi/decomposition.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index 6695858..bc71d00 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -192,20 +192,18 @@ def signed_decomposition(
   for i in range(len(result)):
     unsigned_digit = ((x >> (i * base_log)) & digit_mask) + carry
 
-    # This mask tests for whether a digit is >= B/2, and hence requires a shift
-    # and carry propagation
-    carry_mask = unsigned_digit & base_over_2_threshold
+    # This tests for whether a digit is >= B/2, and hence requires a shift and
+    # carry propagation. Note that the incoming carry can make the digit equal
+    # to B, so that testing a single bit is not enough.
+    carry = (unsigned_digit >= base_over_2_threshold).astype(jnp.uint32)
 
     # a tricky way to optionally shift by B. The result is re-cast as a uint32,
     # but this is OK because future arithmetic operations as uint32 will wrap
     # around and treat 2**32-1 properly as -1.
     signed_digit = jnp.uint32(
-        jnp.int32(unsigned_digit) - jnp.int32(carry_mask << 1)
+        jnp.int32(unsigned_digit) - jnp.int32(carry << base_log)
     )
 
-    # convert the carry mask to a 0/1 bit to carry to the next digit
-    carry = carry_mask >> (base_log - 1)
-
     result = result.at[i].set(signed_digit)
 
   # reversed because the digits are computed from least-significant bit to
-- 
2.43.0


From 13a3f61dcb84ade38246451a140623f9af1f7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:07 +0000
Subject: [PATCH 07/26] fix: align signed digits to the top when the base does
 not divide the width

decompose, recompose and the RGSW and key switching gadgets count digits from the
most significant bit, but signed_decomposition counted from the least significant
one, so with e.g. log_base=5 and 32 bits the digits stood for unrelated powers.
---
 jaxite/jaxite_cggi/decomposition.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index bc71d00..1cda9e4 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -187,10 +187,17 @@ def signed_decomposition(
   base = jnp.uint32(1 << base_log)
   digit_mask = base - 1
   base_over_2_threshold = jnp.uint32(1 << (base_log - 1))
-  carry = jnp.uint32(0)
+  # Digits are aligned to the most significant bit, as in decompose. If base_log
+  # does not divide total_bit_length, the lowest bits, which are not part of any
+  # digit, are rounded off.
+  offset = total_bit_length % base_log
+  if offset > 0:
+    carry = (x >> (offset - 1)) & jnp.uint32(1)
+  else:
+    carry = jnp.uint32(0)
 
   for i in range(len(result)):
-    unsigned_digit = ((x >> (i * base_log)) & digit_mask) + carry
+    unsigned_digit = ((x >> (offset + i * base_log)) & digit_mask) + carry
 
     # This tests for whether a digit is >= B/2, and hence requires a shift and
     # carry propagation. Note that the incoming carry can make the digit equal
-- 
2.43.0


From 3c929e4a715340cce35d549575e25ac85eaa133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:38 +0000
Subject: [PATCH 08/26] fix: decompose negative entries in inverse_gadget

Entries are in [-1/2, 1/2), but a negative float converts to the unsigned integer
0, so every negative entry decomposed as if it were 0.
---
 jaxite/jaxite_cggi/decomposition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index 1cda9e4..3a4ff94 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -346,7 +346,10 @@ def inverse_gadget(
   levels = decomp_params.level_count
 
   scaled = vector * jnp.float32(base) ** levels
-  scaled_rounded = jnp.rint(scaled).astype(jnp.uint32)
+  # Negative entries wrap around, which converting a negative float to an
+  # unsigned integer directly does not do.
+  magnitude = jnp.rint(jnp.abs(scaled)).astype(jnp.uint32)
+  scaled_rounded = jnp.where(scaled < 0, -magnitude, magnitude)
   return jnp.array(  # pytype: disable=bad-return-type  # jnp-type
       [decompose(x, log_base, levels, total_bit_length) for x in scaled_rounded]
   ).flatten()
-- 
2.43.0


From c3ec63b0fa6f9d8b62d30814409e7fd34fbc52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:17 +0000
Subject: [PATCH 09/26] fix: draw one RGSW noise sample per coefficient

The noise of each RLWE row of an RGSW ciphertext was one scalar, broadcast
over all the coefficients of the body.  Multiplying such a row by X - 1
leaves noise in the constant coefficient only, so bootstrapping keys gave
away noise-free linear equations in the secret key.
---
 jaxite/jaxite_cggi/bootstrap.py | 8 +++++++-
 jaxite/jaxite_cggi/rgsw.py      | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_cggi/bootstrap.py b/jaxite/jaxite_cggi/bootstrap.py
index e467cf3..2e1afd6 100644
--- a/jaxite/jaxite_cggi/bootstrap.py
+++ b/jaxite/jaxite_cggi/bootstrap.py
@@ -91,7 +91,12 @@ def gen_bootstrapping_key(
       dtype=jnp.uint32,
   )
   error_samples = prg.rounded_normal(
-      shape=(padded_num_bsk_encryptions, num_blocks + 1, levels),
+      shape=(
+          padded_num_bsk_encryptions,
+          num_blocks + 1,
+          levels,
+          rlwe_sk.modulus_degree,
+      ),
       dtype=jnp.uint32,
   )
 
@@ -156,6 +161,7 @@ def gen_bootstrapping_key(
       batch_size,
       num_blocks + 1,
       levels,
+      rlwe_sk.modulus_degree,
   ))
 
   bsk_input_pairs = bsk_input_pairs.reshape((num_batches, batch_size))
diff --git a/jaxite/jaxite_cggi/rgsw.py b/jaxite/jaxite_cggi/rgsw.py
index da47377..c1d3983 100644
--- a/jaxite/jaxite_cggi/rgsw.py
+++ b/jaxite/jaxite_cggi/rgsw.py
@@ -128,7 +128,7 @@ def encrypt(
       dtype=jnp.uint32,
   )
   error_samples = prg.rounded_normal(
-      shape=(num_blocks + 1, levels),
+      shape=(num_blocks + 1, levels, rlwe_sk.modulus_degree),
       dtype=jnp.uint32,
   )
 
-- 
2.43.0


From c19b96e73c17216bcad4f8256aad66627c86fea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:39 +0000
Subject: [PATCH 10/26] fix: switch_modulus to the full 32-bit modulus

---
 jaxite/jaxite_cggi/lwe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jaxite/jaxite_cggi/lwe.py b/jaxite/jaxite_cggi/lwe.py
index 4171304..b37a55a 100644
--- a/jaxite/jaxite_cggi/lwe.py
+++ b/jaxite/jaxite_cggi/lwe.py
@@ -139,7 +139,9 @@ def switch_modulus(
   """
   divisor = jnp.uint32(2) ** (log_input_modulus - log_output_modulus)
   scaled_ciphertext = matrix_utils.integer_div(ciphertext, divisor)
-  approx_ciphertext = jnp.mod(
-      scaled_ciphertext, jnp.uint32(2) ** log_output_modulus
+  # Masking is reduction mod 2**log_output_modulus, and unlike jnp.mod it is also
+  # right for log_output_modulus == 32, where the modulus wraps around to zero.
+  approx_ciphertext = jnp.bitwise_and(
+      scaled_ciphertext, jnp.uint32(2) ** log_output_modulus - 1
   )
   return approx_ciphertext
-- 
2.43.0


From 4ef423d35572014f15fa3af09c47101e79783a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:23 +0000
Subject: [PATCH 11/26] fix: Barrett reduction of unreduced sums for small
 moduli

The NTT reduces sums of byte products that exceed 2**(2*ceil(log2 m)) when
the modulus is small (e.g. q = 193, a 4 x 8 transform), where the quotient
estimate double-counted the bits above w. The constants were also computed in
floating point.
---
 jaxite/jaxite_ckks/barrett.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jaxite/jaxite_ckks/barrett.py b/jaxite/jaxite_ckks/barrett.py
index d2653b2..a5403df 100644
--- a/jaxite/jaxite_ckks/barrett.py
+++ b/jaxite/jaxite_ckks/barrett.py
@@ -54,10 +54,13 @@ def precompute_barrett_constants(
     moduli = [moduli]
 
   # TODO(#97): Document with a reference
-  barrett_s = [2 * math.ceil(math.log2(m)) for m in moduli]
-  barrett_w = [min(s, 32) for s in barrett_s]
+  # The quotient estimate is exact up to one for inputs below 2**s, so s is as
+  # large as it can be while floor(2**s / m) still fits in 32 bits. This covers
+  # products (z < m**2) and the unreduced sums of products of small moduli.
+  barrett_s = [31 + math.ceil(math.log2(m)) for m in moduli]
+  barrett_w = [32 for _ in barrett_s]
   barrett_s_w = [s - w for s, w in zip(barrett_s, barrett_w)]
-  barrett_m = [math.floor(2**s / m) for s, m in zip(barrett_s, moduli)]
+  barrett_m = [2**s // m for s, m in zip(barrett_s, moduli)]
 
   return BarrettConstants(
       m=jnp.array(barrett_m, dtype=jnp.uint64),
-- 
2.43.0


From 93857fc7a13815628e1fddc48a41407a8bf3d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:18 +0000
Subject: [PATCH 12/26] fix: rescale when the dropped modulus is more than
 twice another one

The negative half of the centered remainder was lifted by adding the
remaining modulus once, which stays negative when q_L > 2 * q_i and then
wrapped around in uint64.
---
 jaxite/jaxite_ckks/rescale.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jaxite/jaxite_ckks/rescale.py b/jaxite/jaxite_ckks/rescale.py
index c713101..cade1a0 100644
--- a/jaxite/jaxite_ckks/rescale.py
+++ b/jaxite/jaxite_ckks/rescale.py
@@ -184,9 +184,8 @@ class Rescale:
       switched = jnp.where(
           last_limb_coeffs < threshold,
           last_limb_coeffs,
-          jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1)
-          - int(last_modulus)
-          + last_limb_coeffs.astype(jnp.int64),
+          (last_limb_coeffs.astype(jnp.int64) - int(last_modulus))
+          % jnp.array(remaining_moduli, jnp.int64).reshape(1, 1, -1),
       )
 
       # Multiply by gammas
-- 
2.43.0


From d5c0a3fb89411f1c93cba8109b4f8b341e307250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:18 +0000
Subject: [PATCH 13/26] fix: HMuxRot keys for auxiliary moduli beyond 64 bits

P * beta was reduced as a NumPy scalar, which overflows with three or more
auxiliary limbs.
---
 jaxite/jaxite_ckks/key_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/key_gen.py b/jaxite/jaxite_ckks/key_gen.py
index 85aafda..7617558 100644
--- a/jaxite/jaxite_ckks/key_gen.py
+++ b/jaxite/jaxite_ckks/key_gen.py
@@ -282,7 +282,9 @@ def gen_hmuxrot_key(
     dest_sk_ext = sk_ext
 
   p_val = math.prod(p_limbs)
-  scaled_val0 = (p_val * beta) % all_moduli_u64
+  scaled_val0 = np.array(
+      [(p_val * beta) % m for m in all_moduli], dtype=np.uint64
+  ).reshape(1, -1)
 
   # key0 is a key-switching key from beta * sk(X^{5^{-j}}) to sk.
   g = pow(5, -j, 2 * degree)
-- 
2.43.0


From a6c81f6c1bb6de823067daa591822041adf278bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:18 +0000
Subject: [PATCH 14/26] fix: key switching when dnum leaves empty partitions

Splitting e.g. 5 limbs into dnum = 4 partitions of 2 leaves the last one
empty, for which no NTT constants can be built. Skip those, as
multiplication does.
---
 jaxite/jaxite_ckks/key_switching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_ckks/key_switching.py b/jaxite/jaxite_ckks/key_switching.py
index bd5db08..9f6ca2e 100644
--- a/jaxite/jaxite_ckks/key_switching.py
+++ b/jaxite/jaxite_ckks/key_switching.py
@@ -46,7 +46,9 @@ class KeySwitcher:
     self.ntt_kernels_q = []
     self.ntt_kernels_out = []
 
-    for i in range(dnum):
+    # The last partitions are empty when limbs_per_part is rounded up.
+    num_parts = math.ceil(len(q_limbs) / limbs_per_part)
+    for i in range(num_parts):
       start_idx = i * limbs_per_part
       end_idx = min(start_idx + limbs_per_part, len(q_limbs))
 
-- 
2.43.0


From ba7282efa5f93d8dd9f8854ce7443ddf32f21d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:18 +0000
Subject: [PATCH 15/26] fix: extend secret keys with negative coefficients

A coefficient -1 is q_0 - 1 in the first limb; tiling that residue into the
other limbs gave a different key there.
---
 jaxite/jaxite_ckks/key_gen.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jaxite/jaxite_ckks/key_gen.py b/jaxite/jaxite_ckks/key_gen.py
index 7617558..e61e35e 100644
--- a/jaxite/jaxite_ckks/key_gen.py
+++ b/jaxite/jaxite_ckks/key_gen.py
@@ -66,10 +66,15 @@ def extend_secret_key(
     raise ValueError("target_moduli must start with secret_key.moduli")
 
   s_coeffs = ntt_cpu.intt_negacyclic_poly(secret_key.data, current_moduli)
-  s_coeffs_single = s_coeffs[:, 0]
-  s_coeffs_extended = np.tile(
-      s_coeffs_single[:, np.newaxis], (1, len(target_moduli))
+  # Negative coefficients of a ternary key must stay small in every modulus.
+  q0 = current_moduli[0]
+  s_coeffs_single = s_coeffs[:, 0].astype(np.int64)
+  s_coeffs_single = np.where(
+      s_coeffs_single > q0 // 2, s_coeffs_single - q0, s_coeffs_single
   )
+  s_coeffs_extended = (
+      s_coeffs_single[:, np.newaxis] % np.array(target_moduli, dtype=np.int64)
+  ).astype(np.uint64)
   s_ext_slots = ntt_cpu.ntt_negacyclic_poly(s_coeffs_extended, target_moduli)
   return SecretKey(s_ext_slots, np.array(target_moduli, dtype=np.uint64))
 
-- 
2.43.0


From 64a46f5f1b603776b45394c7aaa91d7f602c8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 16/26] fix: RNS negation and zero test of vanishing residues

---
 jaxite_ec/finite_field.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/jaxite_ec/finite_field.py b/jaxite_ec/finite_field.py
index 81d25f8..cc6ee0b 100644
--- a/jaxite_ec/finite_field.py
+++ b/jaxite_ec/finite_field.py
@@ -881,8 +881,10 @@ def negate_rns_for_var_add(
   """
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
 
+  # 2**16 - a, also for a residue that is zero: moduli_sub compensates the 2**16
+  # in every residue.
   return jnp.add(
-      jnp.negative(value_a.astype(jnp.uint16)).astype(jnp.uint32),
+      jnp.subtract(jnp.uint32(2**16), value_a.astype(jnp.uint16)),
       moduli_sub,
   )
 
@@ -916,16 +918,11 @@ def negate_rns_for_var_add_zero_check(
   moduli_sub = jnp.array(moduli_sub, dtype=jnp.uint32)
   a = value_a.astype(jnp.uint16)
 
-  # Compute two's complement negation: for nonzero a, jnp.negative(a) computes
-  # (2^16 - a).
-  neg = jnp.negative(a).astype(jnp.uint32)
+  # Compute (2^16 - a), also for a residue that is zero: moduli_sub compensates
+  # the 2^16 in every residue, and a zero residue says nothing about the others.
+  neg = jnp.subtract(jnp.uint32(2**16), a)
 
-  # Build a branchless mask: 0 if a==0, 1 otherwise.
-  mask = (a != 0).astype(jnp.uint32)
-
-  # For nonzero a: (2^16 - a) + moduli_sub; for zero: m + 0 multiplied by 0
-  # gives 0.
-  return (neg + moduli_sub) * mask
+  return neg + moduli_sub
 
 
 @jax.named_call
-- 
2.43.0


From 5ba50afa76524645a466a32b8889548730ba2bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 17/26] fix: merge XYZZ windows that are empty

---
 jaxite_ec/pippenger.py     | 20 +++++++++++++-------
 jaxite_ec/pippenger_rns.py | 16 +++++++++++-----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/jaxite_ec/pippenger.py b/jaxite_ec/pippenger.py
index 63d5372..e44cc29 100644
--- a/jaxite_ec/pippenger.py
+++ b/jaxite_ec/pippenger.py
@@ -422,6 +422,11 @@ def bucket_reduction_scan_algorithm(
   return window_sum
 
 
+def is_zero_point(points):
+  """Zero states of XYZZ points: the zero point keeps ZZ = 0."""
+  return jnp.all(points[2] == 0, axis=-1).astype(jnp.uint8)
+
+
 def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   """Non-scan version WM."""
   coordinate_dim, window_dim, precision_dim = window_sum.shape
@@ -431,11 +436,11 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   for w in range(window_dim - 2, -1, -1):
     for _ in range(slice_length):
       result = jec.pdul_lazy_xyzz_pack(result)
-    result = jec.padd_lazy_xyzz_pack(
-        result,
-        window_sum[:, w, :].reshape(
-            (coordinate_dim, 1, util.U16_EXT_CHUNK_NUM)
-        ),
+    window = window_sum[:, w, :].reshape(
+        (coordinate_dim, 1, util.U16_EXT_CHUNK_NUM)
+    )
+    result = padd_with_zero(
+        result, window, is_zero_point(result), is_zero_point(window)
     )
 
   result = result.reshape((coordinate_dim, precision_dim))
@@ -456,8 +461,9 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
 
   def scan_body(result, window_sum):
     result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_lazy_xyzz_pack(
-        result, window_sum.reshape((coordinate_dim, 1, util.U16_EXT_CHUNK_NUM))
+    window = window_sum.reshape((coordinate_dim, 1, util.U16_EXT_CHUNK_NUM))
+    result = padd_with_zero(
+        result, window, is_zero_point(result), is_zero_point(window)
     )
     return result, None
 
diff --git a/jaxite_ec/pippenger_rns.py b/jaxite_ec/pippenger_rns.py
index fd27be3..822ca0a 100644
--- a/jaxite_ec/pippenger_rns.py
+++ b/jaxite_ec/pippenger_rns.py
@@ -422,6 +422,11 @@ def bucket_reduction_scan_algorithm(
   return window_sum
 
 
+def is_zero_point(points):
+  """Zero states of XYZZ points: the zero point keeps ZZ = 0."""
+  return jnp.all(points[2] == 0, axis=-1).astype(jnp.uint8)
+
+
 def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   """Non-scan version WM."""
   coordinate_dim, window_dim, precision_dim = window_sum.shape
@@ -431,9 +436,9 @@ def window_merge_algorithm(window_sum: jnp.ndarray, slice_length: int):
   for w in range(window_dim - 2, -1, -1):
     for _ in range(slice_length):
       result = jec.pdul_rns_xyzz_pack(result)
-    result = jec.padd_rns_xyzz_pack(
-        result,
-        window_sum[:, w, :].reshape((coordinate_dim, 1, util.NUM_MODULI)),
+    window = window_sum[:, w, :].reshape((coordinate_dim, 1, util.NUM_MODULI))
+    result = padd_with_zero(
+        result, window, is_zero_point(result), is_zero_point(window)
     )
 
   result = result.reshape((coordinate_dim, precision_dim))
@@ -454,8 +459,9 @@ def window_merge_scan_algorithm(window_sum: jnp.ndarray, slice_length: int):
 
   def scan_body(result, window_sum):
     result = jax.lax.fori_loop(0, slice_length, fori_loop_body, result)
-    result = jec.padd_rns_xyzz_pack(
-        result, window_sum.reshape((coordinate_dim, 1, util.NUM_MODULI))
+    window = window_sum.reshape((coordinate_dim, 1, util.NUM_MODULI))
+    result = padd_with_zero(
+        result, window, is_zero_point(result), is_zero_point(window)
     )
     return result, None
 
-- 
2.43.0


From da14e45bf3e4df69c9b70d99631f92c5cf9dd3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 18/26] fix: reduce field sums equal to the prime

---
 jaxite_ec/algorithm/finite_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 6a3ea36..936b3a7 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -142,7 +142,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
     if self.prime != other.prime:
       raise ValueError("Cannot add two numbers in different Fields")
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
@@ -241,7 +241,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
       raise ValueError("Cannot add two numbers in different Fields")
     assert other.montgomeryized
     result = self.value + other.value
-    if result > self.prime:
+    if result >= self.prime:
       result -= self.prime
     new_instance = self.copy()
     new_instance.value = result
-- 
2.43.0


From 314bb914b60619af5cdaa1a6eeeb5153f9cb3468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 19/26] fix: copy field elements with the value zero

---
 jaxite_ec/algorithm/finite_field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index 936b3a7..c5755b0 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -60,7 +60,7 @@ class FiniteFieldElement:
         FiniteFieldElement: A deep copy of the current finite field element.
     """
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(int(self.value))
     else:
       obj.value = BigInt(value)
@@ -181,7 +181,7 @@ class FiniteFieldElementBarrett(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
@@ -291,7 +291,7 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
   def copy(self, value=None, transform=False, reduction=False):
     """Create a deep copy of the current finite field element."""
     obj = copy.copy(self)
-    if not value:
+    if value is None:
       obj.value = BigInt(self.value)
     else:
       if reduction:
-- 
2.43.0


From c154afdd67d6e88cbd0ef99c6d557d91a585a54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 20/26] fix: powers of field elements in Montgomery form

---
 jaxite_ec/algorithm/finite_field.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/jaxite_ec/algorithm/finite_field.py b/jaxite_ec/algorithm/finite_field.py
index c5755b0..b6fb914 100644
--- a/jaxite_ec/algorithm/finite_field.py
+++ b/jaxite_ec/algorithm/finite_field.py
@@ -269,6 +269,15 @@ class FiniteFieldElementMontgomery(FiniteFieldElement):
     new_instance.value = reduced_result
     return new_instance
 
+  def __pow__(self, exponent):
+    assert self.montgomeryized
+    value = self.de_montgomeryize(self.value)
+    new_instance = self.copy()
+    new_instance.value = self.montgomeryize(
+        value.__pow__(exponent, self.prime.value)
+    )
+    return new_instance
+
   def __truediv__(self, other):
     if self.prime != other.prime:
       raise ValueError("Cannot divide two numbers in different Fields")
-- 
2.43.0


From 290c2dab5f6c8f61871649b44d21c56b31092dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 21/26] fix: integer result of ceil_log2

---
 jaxite_ec/algorithm/big_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxite_ec/algorithm/big_integer.py b/jaxite_ec/algorithm/big_integer.py
index d79b763..1331fcc 100644
--- a/jaxite_ec/algorithm/big_integer.py
+++ b/jaxite_ec/algorithm/big_integer.py
@@ -154,7 +154,7 @@ class GMPBigInteger:
     """Calculate the base-2 logarithm of the GMPBigInteger."""
     if self.value <= 0:
       raise ValueError("log2 is only defined for positive integers")
-    return GMPBigInteger(gmpy2.ceil(gmpy2.log2(self.value)))
+    return GMPBigInteger((self.value - 1).bit_length())
 
   def __int__(self):
     return int(self.value)
-- 
2.43.0


From c2c664e76638712edfe53cfb28aaf31ae70fd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 22/26] fix: affine points from two coordinates

---
 jaxite_ec/algorithm/elliptic_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index 0ff77cf..b645fd6 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -265,7 +265,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
       else:
         formal_coordinates.append(self.ff_zero.copy(coordinate))
     if coordinate_length == 2:
-      assert len(formal_coordinates) == 3
+      formal_coordinates.append(self.ff_one.copy())
+    assert len(formal_coordinates) == 3
     return formal_coordinates
 
 
-- 
2.43.0


From 41a816df8874a0e6a0e77a864b8c870f32a73f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 23/26] fix: affine point doubling

---
 jaxite_ec/algorithm/elliptic_curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index b645fd6..bd1760d 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -222,7 +222,8 @@ class ECCSWeierstrassAffine(ECCSWeierstrass):
   def double_general(self, point_a: ECPoint[FieldEle]):
     x1 = point_a[0]
     y1 = point_a[1]
-    slope = (x1 * x1 * 3 + self.a) / (y1 * 2)
+    x1_sq = x1 * x1
+    slope = (x1_sq + x1_sq + x1_sq + self.a) / (y1 + y1)
     cx = slope * slope - x1 - x1
     cy = slope * (x1 - cx) - y1
     return ECPoint[FieldEle]([cx, cy], self)
-- 
2.43.0


From efe83b3440d7d498104db4dd887b1c81ffeb207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 24/26] fix: XYZZ coordinates of affine points

---
 jaxite_ec/algorithm/elliptic_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jaxite_ec/algorithm/elliptic_curve.py b/jaxite_ec/algorithm/elliptic_curve.py
index bd1760d..1f1d75e 100644
--- a/jaxite_ec/algorithm/elliptic_curve.py
+++ b/jaxite_ec/algorithm/elliptic_curve.py
@@ -553,8 +553,8 @@ class ECCSWeierstrassXYZZ(ECCSWeierstrass):
         == CoordinateSystemType.WEIERSTRASS_AFFINE
     )
     new_point = point_a.copy()
-    new_point.append(self.ff_one)
-    new_point.append(self.ff_one)
+    if new_point.coordinates is not None:
+      new_point.coordinates = self.generate_formal_coordinates(point_a[:2])
     new_point.set_coordinate_system(self)
     return new_point
 
-- 
2.43.0


From be4e38a393532dd204850d3f9481cf36e61755e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:39 +0000
Subject: [PATCH 25/26] fix: rns_mod_reduce when imported

---
 jaxite_ec/algorithm/rns_mod_reduce.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jaxite_ec/algorithm/rns_mod_reduce.py b/jaxite_ec/algorithm/rns_mod_reduce.py
index 910d312..f375f43 100644
--- a/jaxite_ec/algorithm/rns_mod_reduce.py
+++ b/jaxite_ec/algorithm/rns_mod_reduce.py
@@ -12,6 +12,7 @@ randint = random.randint
 jax.config.update("jax_enable_x64", True)
 chunk_dtype = jnp.uint16
 mul_res_dtype = jnp.uint32
+moduli_precision = 16
 
 
 def to_tuple(a):
-- 
2.43.0


From 8e3566304442985374b90aad44cbf63d6e054edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:22 +0000
Subject: [PATCH 26/26] fix: inverse gadget when the levels leave bits out

The entries are scaled by base**levels, so their digits are those of a
(log_base * levels)-bit integer. Taking them as total_bit_length-bit
integers returned zero digits whenever the levels do not cover all bits.
---
 jaxite/jaxite_cggi/decomposition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxite/jaxite_cggi/decomposition.py b/jaxite/jaxite_cggi/decomposition.py
index 3a4ff94..bcbf089 100644
--- a/jaxite/jaxite_cggi/decomposition.py
+++ b/jaxite/jaxite_cggi/decomposition.py
@@ -350,6 +350,7 @@ def inverse_gadget(
   # unsigned integer directly does not do.
   magnitude = jnp.rint(jnp.abs(scaled)).astype(jnp.uint32)
   scaled_rounded = jnp.where(scaled < 0, -magnitude, magnitude)
+  # The scaled entries have log_base * levels bits, all of which are digits.
   return jnp.array(  # pytype: disable=bad-return-type  # jnp-type
-      [decompose(x, log_base, levels, total_bit_length) for x in scaled_rounded]
+      [decompose(x, log_base, levels, log_base * levels) for x in scaled_rounded]
   ).flatten()
-- 
2.43.0

