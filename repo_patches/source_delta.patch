From faf3654fcf88f60c0dd2d126aeda87440d8f3748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 1/8] fix: refuse trailing bytes in a Prio3 public share
 without joint randomness

---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index 40f14f6..f144848 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -573,6 +573,8 @@ class Prio3(
 
     def decode_public_share(self, encoded: bytes) -> Optional[list[bytes]]:
         if self.flp.JOINT_RAND_LEN == 0:
+            if len(encoded) != 0:
+                raise ValueError("public share is too long")
             return None
         joint_rand_parts = []
         for _ in range(self.SHARES):
-- 
2.43.0


From b58ef7bfce7fc4bf1226ab22f1ae8a74a2ddef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 2/8] fix: evaluate a zero polynomial given with explicit zero
 coefficients

---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index 5ba2843..d269f2d 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -256,10 +256,10 @@ def poly_add(field: type[F], p: list[F], q: list[F]) -> list[F]:
 
 def poly_eval(field: type[F], p: list[F], eval_at: F) -> F:
     """Evaluate a polynomial in the monomial basis at a point."""
+    p = poly_strip(field, p)
     if len(p) == 0:
         return field(0)
 
-    p = poly_strip(field, p)
     result = p[-1]
     for c in reversed(p[:-1]):
         result *= eval_at
-- 
2.43.0


From e57f000593336167835eb2c809b48ffba276c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 3/8] fix: do not pad the caller's list inside ntt()

---
 poc/vdaf_poc/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/poc/vdaf_poc/field.py b/poc/vdaf_poc/field.py
index d269f2d..3116077 100644
--- a/poc/vdaf_poc/field.py
+++ b/poc/vdaf_poc/field.py
@@ -160,7 +160,7 @@ class NttField(Field):
         otherwise s=1. See Alg. 4 of [Faz25](https://ia.cr/2025/1727).
         """
         log_n = assert_power_of_2(n)
-        p += [cls(0)] * (n-len(p))
+        p = p + [cls(0)] * (n-len(p))
         q = [p[bitrev(log_n, i)] for i in range(n)]
         for k in range(1, log_n + 1):
             w = cls.nth_root(k+1) if set_s else cls(1)
-- 
2.43.0


From a78aeccca52ec0075dfcf731ae1cf1d2e6e9eec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 4/8] fix: refuse a negative bucket index in Histogram.encode()

---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b1273ef..b0059c8 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -729,6 +729,8 @@ class Histogram(Valid[int, list[int], F]):
         self.JOINT_RAND_LEN = self.GADGET_CALLS[0]
 
     def encode(self, measurement: int) -> list[F]:
+        if measurement not in range(self.length):  # REMOVE ME
+            raise ValueError('measurement out of range')  # REMOVE ME
         encoded = [self.field(0)] * self.length
         encoded[measurement] = self.field(1)
         return encoded
-- 
2.43.0


From 3877f41f44901e9e32cb09192e83d37d89ca1d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 5/8] fix: refuse negative values in encode_range_checked_int()

---
 poc/vdaf_poc/flp_bbcggi19.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index b0059c8..2d437f7 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1162,6 +1162,8 @@ def encode_range_checked_int(
         - `value < field.MODULUS`
         - `max_measurement < field.MODULUS`
     """
+    if value < 0:
+        raise ValueError("measurement is negative")
     if value > max_measurement:
         raise ValueError("measurement is too large")
 
-- 
2.43.0


From bcf429d6a155484dd71bbb035b92152f8568b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 6/8] fix: refuse a number of Prio3 proofs outside [1, 256)

---
 poc/vdaf_poc/vdaf_prio3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index f144848..cd770f6 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -76,6 +76,8 @@ class Prio3(
         assert flp is not None
         if shares not in range(2, 256):
             raise ValueError('invalid number of shares')
+        if num_proofs not in range(1, 256):
+            raise ValueError('invalid number of proofs')
 
         self.SHARES = shares
         self.PROOFS = num_proofs
-- 
2.43.0


From 790d16cc6be9d0bc4d9e6b3baee887c6a09bfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 7/8] fix: require one Prio3 verifier share per aggregator

---
 poc/vdaf_poc/vdaf_prio3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poc/vdaf_poc/vdaf_prio3.py b/poc/vdaf_poc/vdaf_prio3.py
index cd770f6..20e690b 100644
--- a/poc/vdaf_poc/vdaf_prio3.py
+++ b/poc/vdaf_poc/vdaf_prio3.py
@@ -192,6 +192,9 @@ class Prio3(
         _agg_param: None,
         verifier_shares: list[Prio3VerifierShare[F]],
     ) -> Optional[bytes]:
+        if len(verifier_shares) != self.SHARES:
+            raise ValueError('incorrect number of verifier shares')
+
         # Unshard each set of verifier shares into each verifier message.
         verifiers = self.flp.field.zeros(
             self.flp.VERIFIER_LEN * self.PROOFS)
-- 
2.43.0


From 6c8ec9afd8479332c0ed97b472a0c0f9eacb1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:59 +0000
Subject: [PATCH 8/8] fix: refuse a non-positive maximum in Sum

---
 poc/vdaf_poc/flp_bbcggi19.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/poc/vdaf_poc/flp_bbcggi19.py b/poc/vdaf_poc/flp_bbcggi19.py
index 2d437f7..91ec40a 100644
--- a/poc/vdaf_poc/flp_bbcggi19.py
+++ b/poc/vdaf_poc/flp_bbcggi19.py
@@ -1095,6 +1095,10 @@ class Sum(Valid[int, int, F]):
         The validity circuit checks that each entry of the bit vector
         has a value of zero or one.
         """
+        # REMOVE ME
+        if max_measurement <= 0:
+            raise ValueError('invalid max_measurement')
+
         self.field = field
         bits = max_measurement.bit_length()
         self.bits = bits
-- 
2.43.0

