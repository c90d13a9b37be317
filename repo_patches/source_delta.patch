From d7d1d8169780ffeaee1a88651c5c84662b8f0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/36] fix: compare the least significant byte of UInt values
 too

CompareTo stopped one byte early, so values that differ only in their
first (least significant) byte were unequal yet compared as equal.
---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 42d60b0..49fbbc9 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -92,7 +92,7 @@ class UIntBase(SerializableMixin):
 
         length = len(x)
 
-        for i in range(length - 1, 0, -1):
+        for i in range(length - 1, -1, -1):
             if x[i] > y[i]:
                 return 1
             if x[i] < y[i]:
-- 
2.43.0


From d0d33e0e35c78e9c064be9ba09813bfddd4e9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 02/36] fix: reject truncated input when deserializing a UInt

Deserialize took whatever was left in the stream, which silently turned
a UInt160/UInt256 into a shorter value (and its bytearray into bytes).
---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 49fbbc9..7c2b3c4 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -39,7 +39,7 @@ class UIntBase(SerializableMixin):
         writer.WriteBytes(self.Data)
 
     def Deserialize(self, reader):
-        self.Data = reader.ReadBytes(self.Size)
+        self.Data = bytearray(reader.SafeReadBytes(self.Size))
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-- 
2.43.0


From 1e15b653ff61812f2b24504d047c6b7881912cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 03/36] fix: do not drop BigInteger values passed to WriteByte

WriteByte only accepted exactly 'int', so WriteVarInt(BigInteger(n)) with
n < 0xfd silently wrote nothing.
---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 1904eec..774a446 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -82,7 +82,7 @@ class BinaryWriter(object):
             self.stream.write(value)
         elif type(value) is str:
             self.stream.write(value.encode('utf-8'))
-        elif type(value) is int:
+        elif isinstance(value, int):
             self.stream.write(bytes([value]))
 
     def WriteBytes(self, value, unhex=True):
-- 
2.43.0


From e627eda4aecf01ca6a26fdd86c6a3921f1554d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 04/36] fix: do not unhexlify text written by WriteFixedString

A fixed string that happens to consist of hex digits ('abcd') was written
as raw bytes and so both altered and shorter than the requested length.
---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 774a446..a197c26 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -386,7 +386,7 @@ class BinaryWriter(object):
         slen = len(towrite)
         if slen > length:
             raise Exception("string longer than fixed length: %s " % length)
-        self.WriteBytes(towrite)
+        self.WriteBytes(towrite, unhex=False)
         diff = length - slen
 
         while diff > 0:
-- 
2.43.0


From 8493f13e03343a4c62d555eeee95531372468686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 05/36] fix: do not unhexlify hashes a second time when writing
 hash lists

WriteHashes and Write2000256List already unhexlify each hash; a hash whose
raw bytes all happen to be ASCII hex digits was unhexlified again and
written at half its size.
---
 neocore/IO/BinaryWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index a197c26..488aa1e 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -417,7 +417,7 @@ class BinaryWriter(object):
         for item in arr:
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteHashes(self, arr):
         """
@@ -432,7 +432,7 @@ class BinaryWriter(object):
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
             #            logger.info("WRITING HASH %s " % ba)
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteFixed8(self, value, unsigned=False):
         """
-- 
2.43.0


From 13e6b4b429739f0c2c65ba14de94b74d4e87ebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 06/36] fix: support every encoding in WriteVarString

The encoded bytes took a detour through hex text decoded with the same
encoding, which fails for encodings that are no superset of ASCII (utf-16).
---
 neocore/IO/BinaryWriter.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 488aa1e..c660a4a 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -367,12 +367,8 @@ class BinaryWriter(object):
         if type(value) is str:
             value = value.encode(encoding)
 
-        length = len(value)
-        ba = bytearray(value)
-        byts = binascii.hexlify(ba)
-        string = byts.decode(encoding)
-        self.WriteVarInt(length)
-        self.WriteBytes(string)
+        self.WriteVarInt(len(value))
+        self.WriteBytes(value, unhex=False)
 
     def WriteFixedString(self, value, length):
         """
-- 
2.43.0


From d1b7b0ff178c21b91f1f141e65cf3f50f50f8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 07/36] fix: compute Fixed8 division, Ceil, Floor and ToInt in
 integers

They went through binary floating point and were wrong for amounts that
need more than 53 bits, e.g. Fixed8(8999999999999999999).ToInt().
---
 neocore/Fixed8.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index cab8d25..e58dd3f 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,8 +7,6 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
-import math
-
 
 class Fixed8:
     value = 0
@@ -88,7 +86,8 @@ class Fixed8:
         return self.__mul__(other)
 
     def __truediv__(self, other):
-        return Fixed8(int(self.value / other.value))
+        quotient = abs(self.value) // abs(other.value)
+        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)
 
     def __floordiv__(self, other):
         return Fixed8(self.value // other.value)
@@ -124,13 +123,13 @@ class Fixed8:
         return self.value <= other.value
 
     def Ceil(self):
-        return Fixed8(math.ceil(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)
 
     def Floor(self):
-        return Fixed8(math.floor(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(self.value // Fixed8.D * Fixed8.D)
 
     def ToInt(self):
-        return int(self.value / Fixed8.D)
+        return abs(self.value) // Fixed8.D * (-1 if self.value < 0 else 1)
 
     def ToString(self):
         return str(self.value / Fixed8.D)
-- 
2.43.0


From 9a3b9089a50622bfadcab82efcf6c9d2602b9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 08/36] fix: parse Fixed8 amounts without binary rounding
 errors

FromDecimal and TryParse multiplied a binary float and truncated, so '4.35'
became 4.34999999. TryParse also raised for 'nan' and 'inf' instead of
returning None.
---
 neocore/Fixed8.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index e58dd3f..6fd7106 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,6 +7,9 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
+import math
+from decimal import Decimal, InvalidOperation
+
 
 class Fixed8:
     value = 0
@@ -27,6 +30,9 @@ class Fixed8:
 
     @staticmethod
     def FromDecimal(number):
+        if not isinstance(number, int):
+            # take the number as it is written, without binary rounding errors
+            number = Decimal(str(number))
         out = int(number * Fixed8.D)
         return Fixed8(out)
 
@@ -63,7 +69,13 @@ class Fixed8:
             if require_positive and val < 0:
                 return None
 
-            return Fixed8(int(val * Fixed8.D))
+            if isinstance(val, float) and not math.isfinite(val):
+                return None
+
+            try:
+                return Fixed8.FromDecimal(Decimal(str(value)))
+            except InvalidOperation:
+                return Fixed8.FromDecimal(val)
 
         return None
 
-- 
2.43.0


From 05746bd5537f242123dbdf060ed1e6a8768da66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 09/36] fix: never use scientific notation in the text form of
 a Fixed8

Amounts below 0.0001 were rendered as e.g. '1e-08', also in
ToNeoJsonString, where a plain decimal number is expected.
---
 neocore/Fixed8.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 6fd7106..03c96f0 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -144,7 +144,7 @@ class Fixed8:
         return abs(self.value) // Fixed8.D * (-1 if self.value < 0 else 1)
 
     def ToString(self):
-        return str(self.value / Fixed8.D)
+        return format(Decimal(str(self.value / Fixed8.D)), 'f')
 
     def ToNeoJsonString(self):
         strval = self.ToString()
-- 
2.43.0


From 89b931c3a4e410f7afd2eac3ddf939c90abe6be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 10/36] fix: check version and length in isValidPublicAddress

Any Base58Check text of 34 characters starting with 'A' was reported as a
valid address, also with a version byte other than NEO's.
---
 neocore/Utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neocore/Utils.py b/neocore/Utils.py
index 04bfde9..74115ba 100644
--- a/neocore/Utils.py
+++ b/neocore/Utils.py
@@ -1,4 +1,5 @@
 import base58
+from neocore.Cryptography import Helper
 
 
 def isValidPublicAddress(address: str) -> bool:
@@ -7,10 +8,10 @@ def isValidPublicAddress(address: str) -> bool:
 
     if len(address) == 34 and address[0] == 'A':
         try:
-            base58.b58decode_check(address.encode())
-            valid = True
+            data = base58.b58decode_check(address.encode())
+            valid = len(data) == 21 and data[0] == Helper.ADDRESS_VERSION
         except ValueError:
-            # checksum mismatch
+            # invalid character or checksum mismatch
             valid = False
 
     return valid
-- 
2.43.0


From 0106498837c2e26c8e23fe24cf8dfb0dc81a5d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 11/36] fix: reject addresses with a wrong version or length in
 np-utils

The version byte check always succeeded on Python 3, the length was not
checked, and text that is not base58 ended in a traceback.
---
 neocore/bin/cli.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/neocore/bin/cli.py b/neocore/bin/cli.py
index 4564786..20010e6 100755
--- a/neocore/bin/cli.py
+++ b/neocore/bin/cli.py
@@ -13,6 +13,7 @@ from Crypto import Random
 
 from neocore import __version__
 from neocore.Cryptography.Crypto import Crypto
+from neocore.Cryptography import Helper
 from neocore.UInt160 import UInt160
 from neocore.KeyPair import KeyPair
 
@@ -22,12 +23,17 @@ class ConversionError(Exception):
 
 
 def address_to_scripthash(address):
-    data = bytes(base58.b58decode(address))
+    try:
+        data = bytes(base58.b58decode(address))
+    except ValueError:
+        raise ConversionError("Invalid address: not base58 encoded")
+
+    # version byte + script hash + checksum
+    if len(data) != 1 + 20 + 4:
+        raise ConversionError("Invalid address: wrong length")
 
-    # Make sure signature byte is correct. In python 3, data[0] is bytes, and in 2 it's str.
-    # We use this isinstance checke to make it work with both Python 2 and 3.
-    is_correct_signature = data[0] != 0x17 if isinstance(data[0], bytes) else b'\x17'
-    if not is_correct_signature:
+    # Make sure signature byte is correct.
+    if data[0] != Helper.ADDRESS_VERSION:
         raise ConversionError("Invalid address: wrong signature byte")
 
     # Make sure the checksum is correct
-- 
2.43.0


From e42190f37dce4a40c39ac23e9c5592e13b300591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 12/36] fix: order ECPoints with the same x by their y
 coordinate

The comparison returned before it looked at y, so a point and its negation
were unordered and sorting public keys depended on their initial order.
---
 neocore/Cryptography/ECCurve.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 238050d..f772b06 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -388,8 +388,6 @@ class EllipticCurve:
                 return True
             elif self.x.value > other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value < other.y.value
 
@@ -400,8 +398,6 @@ class EllipticCurve:
                 return True
             elif self.x.value < other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value > other.y.value
 
-- 
2.43.0


From 7b4b08c7ce57d0dd52c5cb9626ab97f7263952a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 13/36] fix: use integer division in elliptic curve point
 multiplication

'/=' yields floats on Python 3, so that point * scalar was wrong for
nearly every scalar.
---
 neocore/Cryptography/ECCurve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index f772b06..75c5398 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -511,6 +511,8 @@ class EllipticCurve:
     # scalar multiplication is implemented like repeated addition
     def mul(self, pt, scalar):
         scalar = self.field.integer(scalar)
+        if scalar < 0:
+            pt, scalar = -pt, -scalar
         accumulator = self.zero()
         shifter = pt
 
@@ -519,7 +521,7 @@ class EllipticCurve:
             if bit:
                 accumulator += shifter
             shifter += shifter
-            scalar /= 2
+            scalar //= 2
 
         return accumulator
 
-- 
2.43.0


From 8809caf8cb1d895ed0abcc522941a09f7834dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 14/36] fix: negating zero in a FiniteField yields zero

It yielded the unreduced value p, which is not recognized as zero: the
negation of the point at infinity was no longer a neutral element.
---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 75c5398..56c6c83 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -282,7 +282,7 @@ class FiniteField:
         return (lhs.value - rhs.value) % self.p == 0
 
     def neg(self, val):
-        return self.value(self.p - val.value)
+        return self.value(-val.value % self.p)
 
     def sqrt(self, val, flag):
         """
-- 
2.43.0


From 14e918b9e5a32982f19c004fe837295036e3c176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 15/36] fix: use integer exponents in FiniteField.sqrt

The exponents were floats on Python 3 and thus wrong for large fields, and
the test for p % 8 == 5 has to use (p - 1) / 4.
---
 neocore/Cryptography/ECCurve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 56c6c83..57c9ecc 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -292,13 +292,13 @@ class FiniteField:
             return val
         sw = self.p % 8
         if sw == 3 or sw == 7:
-            res = val ** ((self.p + 1) / 4)
+            res = val ** ((self.p + 1) // 4)
         elif sw == 5:
-            x = val ** ((self.p + 1) / 4)
+            x = val ** ((self.p - 1) // 4)
             if x == 1:
-                res = val ** ((self.p + 3) / 8)
+                res = val ** ((self.p + 3) // 8)
             else:
-                res = (4 * val) ** ((self.p - 5) / 8) * 2 * val
+                res = (4 * val) ** ((self.p - 5) // 8) * 2 * val
         else:
             raise Exception("modsqrt non supported for (p%8)==1")
 
-- 
2.43.0


From fe28bbea7f2fb7799a8657c3fedffa76dc7f9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 16/36] fix: support int / FiniteField.Value on Python 3

__rdiv__ is the Python 2 name. Point division by a scalar needs it.
---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 57c9ecc..d7bfd2e 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -226,7 +226,7 @@ class FiniteField:
         def __rmul__(self, rhs):
             return self.field.mul(self.field.value(rhs), self)
 
-        def __rdiv__(self, rhs):
+        def __rtruediv__(self, rhs):
             return self.field.div(self.field.value(rhs), self)
 
         def __rpow__(self, rhs):
-- 
2.43.0


From 1f80ab57bb712218588e93bded8fb4bde3f5b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 17/36] fix: give ECDSA.secp256r1 the order of its group

It passed the coordinate field object as the modulus for scalars, so every
operation with a scalar raised a TypeError.
---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index d7bfd2e..d6bab5a 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -809,7 +809,7 @@ class ECDSA:
         # return ECDSA(GFp, ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
         return ECDSA(ec,
                      ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
-                     GFp)
+                     int("FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551", 16))
 
     @staticmethod
     def decode_secp256r1(str, unhex=True, check_on_curve=True):
-- 
2.43.0


From a05fce1a0f0eb17f7048bbae6430bdbf0acb7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 18/36] fix: reject a truncated public key in
 decode_from_reader

The bytes that were left were taken as a shorter x coordinate, which could
decode to an unrelated point.
---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index d6bab5a..3216a25 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -577,7 +577,7 @@ class EllipticCurve:
         # these are compressed
         if f == 2 or f == 3:
             yTilde = f & 1
-            data = bytearray(reader.ReadBytes(32))
+            data = bytearray(reader.SafeReadBytes(32))
             data.reverse()
             data.append(0)
             X1 = int.from_bytes(data, 'little')
-- 
2.43.0


From 94ce9d13e599483fbdbdb46554a0046acccc27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:29 +0000
Subject: [PATCH 19/36] fix: decode raw public keys in
 ECDSA.FromBytes_Secp256r1

The key was unhexlified although it is tested for the lengths of raw keys,
so that every key of 33, 64, 65 or 72 bytes raised an error.
---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 3216a25..6c0c5d6 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -844,12 +844,12 @@ class ECDSA:
         length = len(pubkey)
 
         if length == 33 or length == 65:
-            return ECDSA.decode_secp256r1(pubkey)
+            return ECDSA.decode_secp256r1(pubkey, unhex=False)
 
         elif length == 64 or length == 72:
             skip = length - 64
-            out = bytearray(b'04').hex() + pubkey[skip:]
-            return ECDSA.decode_secp256r1(out)
+            out = bytearray(b'\x04') + bytearray(pubkey[skip:])
+            return ECDSA.decode_secp256r1(out, unhex=False)
 
         elif length == 96 or length == 104:
             skip = length - 96
-- 
2.43.0


From 3777c77513ce0ef26125c159f1c2bc19015e447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 20/36] fix: only decode a single zero byte to the point at
 infinity

Any longer input that starts with a zero byte was accepted as well.
---
 neocore/Cryptography/ECCurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 6c0c5d6..a76f35a 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -604,6 +604,8 @@ class EllipticCurve:
         f = ba[0]
 
         if f == 0:
+            if len(ba) != 1:
+                raise Exception("Incorrect length for infinity encoding")
             return self.Infinity
 
         # these are compressed
-- 
2.43.0


From 28088f1cf1ffaf512eb74d73a58012d2024f2b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 21/36] fix: reject encoded points with coordinates outside the
 field

A coordinate c and c + p were accepted as two encodings of one point.
---
 neocore/Cryptography/ECCurve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index a76f35a..b008ede 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -635,6 +635,8 @@ class EllipticCurve:
 
             x = int.from_bytes(x_data, 'little')
             y = int.from_bytes(y_data, 'little')
+            if x >= cq or y >= cq:
+                raise Exception("Coordinate is not a field element")
 
             pnt = self.point(x, y)
             return pnt
@@ -653,6 +655,8 @@ class EllipticCurve:
 
         cq = self.field.p
         x = self.field.value(x)
+        if x.value >= cq:
+            raise Exception("Coordinate is not a field element")
 
         ysquare = x ** 3 + self.a * x + self.b
 
-- 
2.43.0


From 86c2ddd9b8b9baf8b5c075ea29c1a2946165984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 22/36] fix: reject an uncompressed encoding of the coordinates
 (0, 0)

That is no point of the curve, but it was decoded to the point at infinity,
for which (0, 0) is the internal representation.
---
 neocore/Cryptography/ECCurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index b008ede..ba4509b 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -639,6 +639,8 @@ class EllipticCurve:
                 raise Exception("Coordinate is not a field element")
 
             pnt = self.point(x, y)
+            if pnt.iszero():
+                raise Exception("Invalid encoding of the point at infinity")
             return pnt
 
         elif f == 6 or f == 7:
-- 
2.43.0


From 9c97eb505cb315ba2fc2def4318ec83e85a2730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 23/36] fix: sign and verify on the NEO curve whatever was
 called before

Unless a KeyPair or Crypto.Default() had been created earlier, Crypto.Sign
signed on bitcoin's curve, and VerifySignature decompressed public keys on
it, so that valid signatures were rejected.
---
 neocore/Cryptography/Crypto.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 131f146..3a072f5 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -116,6 +116,7 @@ class Crypto(object):
 
         hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()
 
+        Crypto.SetupSignatureCurve()
         v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)
 
         rb = bytearray(r.to_bytes(32, 'big'))
@@ -155,6 +156,7 @@ class Crypto(object):
             message = message.encode('utf-8')
 
         if len(public_key) == 33:
+            Crypto.SetupSignatureCurve()
             public_key = bitcoin.decompress(public_key)
             public_key = public_key[1:]
 
-- 
2.43.0


From db1f166b57003b263c05502e821f80ff72071586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 24/36] fix: VerifySignature returns False for a malformed
 compressed key

It raised an exception for 33 bytes that do not start with 02 or 03, where
it returns False for every other kind of invalid key.
---
 neocore/Cryptography/Crypto.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 3a072f5..47844fc 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -155,12 +155,12 @@ class Crypto(object):
         elif isinstance(message, str):
             message = message.encode('utf-8')
 
-        if len(public_key) == 33:
-            Crypto.SetupSignatureCurve()
-            public_key = bitcoin.decompress(public_key)
-            public_key = public_key[1:]
-
         try:
+            if len(public_key) == 33:
+                Crypto.SetupSignatureCurve()
+                public_key = bitcoin.decompress(public_key)
+                public_key = public_key[1:]
+
             vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)
             res = vk.verify(signature, message, hashfunc=hashlib.sha256)
             return res
-- 
2.43.0


From 2a4f6c58d38ccf1ad92fa283f0cd2db11cee0f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 25/36] fix: reject the private key zero

It has no public key; the KeyPair was created with the point at infinity
and failed later, in GetAddress.
---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 62a99ef..e1becbb 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -75,6 +75,9 @@ class KeyPair(object):
             edcsa = ECDSA.secp256r1()
             self.PublicKey = edcsa.Curve.point(pubx, puby)
 
+        if self.PublicKey.IsInfinity:
+            raise ValueError("Invalid private key")
+
         self.PublicKeyHash = Crypto.ToScriptHash(self.PublicKey.encode_point(True), unhex=True)
 
     @staticmethod
-- 
2.43.0


From 7dc111e89059413a3238b920b06f11032540f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 26/36] fix: check header and length of NEP-2 keys

NEP-2 prescribes the prefix 0x01 0x42 0xe0; a key with any other prefix was
accepted and decrypted.
---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index e1becbb..4a1e444 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -131,6 +131,9 @@ class KeyPair(object):
         except Exception as e:
             raise ValueError("Invalid nep2_key")
 
+        if len(decoded_key) != ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE + 32 or decoded_key[:ADDRESS_HASH_OFFSET] != NEP_HEADER + NEP_FLAG:
+            raise ValueError("Invalid nep2_key")
+
         address_hash = decoded_key[ADDRESS_HASH_OFFSET:ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE]
         encrypted = decoded_key[-32:]
 
-- 
2.43.0


From b162fa81d39c2df42dfc4c14e3ad13633d266aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 27/36] fix: trim the right half of a merkle tree by its own
 flags

The flags of the left subtree were applied to the right one as well, so
flagged leaves on the right were removed and others kept. A subtree that
is its parent's left and right child (odd number of nodes) is visited once.
---
 neocore/Cryptography/MerkleTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index e18fa1a..c6939a7 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -181,14 +181,15 @@ class MerkleTree(object):
             return
 
         if depth == 2:
-            if not flags[index * 2] and not flags[index * 2 + 1]:
+            if not any(flags[index * 2:index * 2 + 2]):
                 node.LeftChild = None
                 node.RightChild = None
 
         else:
 
             MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)
-            MerkleTree._TrimNode(node.RightChild, index * 2, depth - 1, flags)
+            if node.RightChild is not node.LeftChild:
+                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)
 
             if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:
                 node.LeftChild = None
-- 
2.43.0


From dc1ba46174e5fecdc19a5ff4ef6160163af8b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 28/36] fix: invert negative values modulo m correctly

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index ba4509b..59645c2 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -24,7 +24,7 @@ def GCD(a, b):
 
 
 def modinv(x, m):
-    (gcd, c, d) = GCD(x, m)
+    (gcd, c, d) = GCD(x % m, m)
     return c
 
 
-- 
2.43.0


From ceb9af9b6ff70677b929328dc67b1d46c41208c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 29/36] fix: ECDSA.verify rejects signatures with r or s equal
 to zero

---
 neocore/Cryptography/ECCurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 59645c2..6293f10 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -734,6 +734,9 @@ class ECDSA:
         r = self.GFn.value(rnum)
         s = self.GFn.value(snum)
 
+        if r == 0 or s == 0:
+            return False
+
         R = self.G * (m / s) + pubkey * (r / s)
 
         # alternative methods of verifying
-- 
2.43.0


From 0ed1e937ac5064b74a7422b58c58557ce59c9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:57 +0000
Subject: [PATCH 30/36] fix: do not decode a point from an empty stream

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 6293f10..6924c7a 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -569,7 +569,7 @@ class EllipticCurve:
 
     def decode_from_reader(self, reader):
 
-        f = reader.ReadByte()
+        f = reader.SafeReadBytes(1)[0]
 
         if f == 0:
             return self.Infinity
-- 
2.43.0


From 942ffb2e1cff5ec9059c6a429ea2c910497ecea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 31/36] fix: keep next_random_integer within the requested size

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 6924c7a..1fb91eb 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -61,7 +61,7 @@ def next_random_integer(size_in_bits):
         ba[balen - 1] = 0
     else:
         ba[balen - 1] &= (1 << size_in_bits % 8) - 1
-    return int.from_bytes(ba, 'big')
+    return int.from_bytes(ba, 'little')
 
 
 def _lucas_sequence(n, P, Q, k):
-- 
2.43.0


From 68857faa45e5a93b780e469423ade6054d9158c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 32/36] fix: find square roots modulo primes with p % 4 == 1

---
 neocore/Cryptography/ECCurve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 1fb91eb..1aaeb6e 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -153,6 +153,9 @@ def sqrtCQ(val, CQ):
         else:
             return None
 
+    if val == 0:
+        return 0
+
     qMinusOne = CQ - 1
     legendreExponent = qMinusOne >> 1
     if modpow(val, legendreExponent, CQ) != 1:
@@ -166,7 +169,7 @@ def sqrtCQ(val, CQ):
     U = None
     V = None
 
-    while U == 1 or U == qMinusOne:
+    while U is None or U == 1 or U == qMinusOne:
 
         P = next_random_integer(CQ.bit_length())
         while P >= CQ or modpow(P * P - fourQ, legendreExponent, CQ) != qMinusOne:
-- 
2.43.0


From 4047f4aca9ef3718e7d57d8c7f0c3afaa7ac790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 33/36] fix: do not share the caller's buffer with a UInt value

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 7c2b3c4..f742bd4 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -20,7 +20,7 @@ class UIntBase(SerializableMixin):
             if type(data) is bytes:
                 self.Data = bytearray(data)
             elif type(data) is bytearray:
-                self.Data = data
+                self.Data = bytearray(data)
             else:
                 raise Exception("Invalid format")
 
-- 
2.43.0


From ffb611542c147c468386ca6ef12429653c4e6990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:08 +0000
Subject: [PATCH 34/36] fix: convert decimal amounts exactly, whatever the
 precision of the decimal context

Fixed8.FromDecimal and TryParse rounded in the caller's decimal context: with
more than 28 digits the amount was rounded instead of truncated ('1.' + '9'*40
gave 2), and a lower precision set by the application changed any amount.
---
 neocore/Fixed8.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 03c96f0..2590cd1 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -8,7 +8,7 @@ Usage:
 """
 
 import math
-from decimal import Decimal, InvalidOperation
+from decimal import Context, Decimal, InvalidOperation, MAX_PREC, localcontext
 
 
 class Fixed8:
@@ -33,7 +33,9 @@ class Fixed8:
         if not isinstance(number, int):
             # take the number as it is written, without binary rounding errors
             number = Decimal(str(number))
-        out = int(number * Fixed8.D)
+        # exact, whatever precision and rounding the caller uses for decimals
+        with localcontext(Context(prec=MAX_PREC)):
+            out = int(number * Fixed8.D)
         return Fixed8(out)
 
     @staticmethod
-- 
2.43.0


From 653225e369a3bd8515f5d2e0768a68cfb06ef3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 35/36] fix: compute the extended gcd without recursion, for
 numbers of any size

---
 neocore/Cryptography/ECCurve.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 1aaeb6e..85cc91c 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -17,10 +17,14 @@ modpow = pow
 
 
 def GCD(a, b):
-    if (a == 0):
-        return (b, 0, 1)
-    d1, x1, y1 = GCD(b % a, a)
-    return (d1, y1 - (b // a) * x1, x1)
+    quotients = []
+    while a != 0:
+        quotients.append(b // a)
+        a, b = b % a, a
+    x1, y1 = 0, 1
+    for quotient in reversed(quotients):
+        x1, y1 = y1 - quotient * x1, x1
+    return (b, x1, y1)
 
 
 def modinv(x, m):
-- 
2.43.0


From 5f9c1c64a587b3df1d084d550abe96f20c3949e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:43 +0000
Subject: [PATCH 36/36] fix: xor_bytes refuses bad arguments also under python
 -O

---
 neocore/Cryptography/Helper.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/Helper.py b/neocore/Cryptography/Helper.py
index 95e26cc..f4265e3 100644
--- a/neocore/Cryptography/Helper.py
+++ b/neocore/Cryptography/Helper.py
@@ -182,9 +182,11 @@ def xor_bytes(a, b):
     Returns:
         bytes: The XOR result
     """
-    assert isinstance(a, bytes)
-    assert isinstance(b, bytes)
-    assert len(a) == len(b)
+    # not by assert statements, which python -O leaves out
+    if not isinstance(a, bytes) or not isinstance(b, bytes):
+        raise AssertionError('XOR needs two bytes objects')
+    if len(a) != len(b):
+        raise AssertionError('XOR needs two bytes objects of the same length')
     res = bytearray()
     for i in range(len(a)):
         res.append(a[i] ^ b[i])
-- 
2.43.0

