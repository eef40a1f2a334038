From f5f5d491bc4f9f5d5f13fb47e63332a65b105ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:57 +0000
Subject: [PATCH 01/61] fix: decode of an empty SEQUENCE OF raised instead of
 returning it

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0024a67..957cff3 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -69,7 +69,7 @@ def decode(per_stream, asn1Spec, **kwargs):
     per_bytes = PerBytes(binascii.hexlify(per_stream))
     logger.debug("Decoding of bytes: '%s' started. Binary representation: '%s'", codecs.encode(per_stream, "hex_codec"), per_bytes.binary_string)
     decoded = asn1Spec.create_field_list(per_bytes)
-    if decoded == '':
+    if isinstance(decoded, str):
         return asn1Spec.__class__('')
     return decoded
 
-- 
2.43.0


From 23ee5be9ca2cb8c8d9d17704bea3db2b427b4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:59 +0000
Subject: [PATCH 02/61] fix: empty BIT STRING was encoded and decoded as the
 one-bit string '0'

---
 asn1PERser/codec/per/decoder.py | 6 +++---
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 957cff3..36db7e7 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -174,7 +174,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
             per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
@@ -210,7 +210,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
@@ -223,7 +223,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=0,
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
-            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
+            bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7159457..932ef0b 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -122,7 +122,7 @@ def encode_bitstring(bitstring):    # 16
     if bitstring.namedValues:    # 16.2, 16.3
         raise NotImplemented
 
-    bitstring_value = bitstring.asBinary()
+    bitstring_value = bitstring.asBinary() if len(bitstring) else ''
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-- 
2.43.0


From fefe1981029578b96a6b4afcb5f62ee9760b8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:02 +0000
Subject: [PATCH 03/61] fix: empty unconstrained OCTET STRING was decoded as
 one zero octet

---
 asn1PERser/codec/per/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 36db7e7..9f891d2 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -301,6 +301,10 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            if octetstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
+                logger.info("%s: decoding finished.", octetstring.__class__.__name__)
+                return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0))
             octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
-- 
2.43.0


From 9a2b086de4ff8328de1005aa67e0eee199918d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:06 +0000
Subject: [PATCH 04/61] fix: leading zero octets were lost when decoding a size
 constrained OCTET STRING

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 9f891d2..732bd73 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -290,7 +290,7 @@ def decode_octetstring(octetstring, per_bytes):
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
                 return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0), octet_align=True)
-            octetstring_val = hex(octetstring_val)[2:].rstrip("L")
+            octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
             logger.info("%s: decoding finished.", octetstring.__class__.__name__)
             return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))
-- 
2.43.0


From 39268305c8961adb8e24bf3dcf598a2cd5700fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:09 +0000
Subject: [PATCH 05/61] fix: OCTET STRING with upper size bound of 64K or more
 needs an unconstrained length (X.691 11.9.4.1)

---
 asn1PERser/codec/per/decoder.py | 2 +-
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 732bd73..5c93f10 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -279,7 +279,7 @@ def decode_octetstring(octetstring, per_bytes):
     else:  # 17.8
         logger.info("%s: lowerEndpoint = %s; upperEndpoint = %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint, octetstring.subtypeSpec.upperEndpoint)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = decode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=per_bytes,
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 932ef0b..24bf7d8 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -211,7 +211,7 @@ def encode_octetstring(octetstring):
             raise NotImplemented
     else:    # 17.8
         octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=octetstring_len,
-- 
2.43.0


From 0cc1e592d22a8569aa6cf96cd97761f3a236652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:11 +0000
Subject: [PATCH 06/61] fix: constrained number with a single value was decoded
 as 0 instead of that value

---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 5c93f10..d2d6ddf 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -637,7 +637,7 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     field_size = get_bit_field_size(range)
     logger.debug("constrained whole number: range: %s; size: %s", range, field_size)
     if range == 1:
-        return 0
+        return lowerBound
     elif range <= 255:
         non_negative_binary_integer = decode_non_negative_binary_integer(per_bytes, field_size, octet_align=False)
     elif range == 256:
-- 
2.43.0


From 1b70960f1d1d6bbb9ab59e3cccb5e77a408405af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:14 +0000
Subject: [PATCH 07/61] fix: extension bit was dropped for empty strings of
 extensible size 0

---
 asn1PERser/codec/per/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 24bf7d8..777ba7a 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -139,7 +139,7 @@ def encode_bitstring(bitstring):    # 16
             return [extension_bit_field] + bitstring_length_determinant + [bitstring_bit_field]
     # else:    # 16.7
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
-        return
+        return [extension_bit_field] if extension_bit_field else None
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         if bitstring_len <= 16:    # 16.9
             bitstring_bit_field = bit_field(octet_align=False, value=bitstring_value)
@@ -195,7 +195,7 @@ def encode_octetstring(octetstring):
                                                                        upperBound=None)
             return [extension_bit_field] + octetstring_length_determinant + [octetstring_bit_field]
     if octetstring.subtypeSpec.upperEndpoint == 0:    # 17.5
-        return
+        return [extension_bit_field] if extension_bit_field else None
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         if octetstring_len <= 2:    # 17.6
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
-- 
2.43.0


From 85b3a4def776c3c62b74eb777eeec4c02657aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:16 +0000
Subject: [PATCH 08/61] fix: decoder skipped to the next octet after a BIT
 STRING outside its extension root

---
 asn1PERser/codec/per/decoder.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index d2d6ddf..a2f4373 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -173,7 +173,6 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      lowerBound=0,
                                                                      upperBound=None)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
-            per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-- 
2.43.0


From 322219b12755c875ac92f48fb9f4e4c741558640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:53 +0000
Subject: [PATCH 09/61] fix: length of an unconstrained INTEGER of more than
 127 octets was not a length determinant

---
 asn1PERser/codec/per/decoder.py |  6 +++++-
 asn1PERser/codec/per/encoder.py | 12 ++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a2f4373..2a8672a 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -670,7 +670,11 @@ def decode_normally_small_non_negative_whole_number(per_bytes, lower_bound):
 
 def decode_unconstrained_whole_number(per_bytes):
     logger.debug("function: decode_unconstrained_whole_number; params: per_bytes: (hidden)")
-    unconstrained_length_determinant = per_bytes.next(octet_align=True)
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
     logger.debug("unconstarined length determinant: %s", unconstrained_length_determinant)
     unconstrained_whole_number = twos_comp(
         per_bytes=per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0)),
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 777ba7a..350b113 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -523,10 +523,14 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
 
 
 def create_field_list_for_unconstrained_whole_number(integer):
-    unconstrained_length_determinant = get_twos_complement_octet_len(integer)
-    unconstrained_whole_number = encode_unconstrained_whole_number(integer, unconstrained_length_determinant)
-    unconstrained_length_determinant = '{0:08b}'.format(unconstrained_length_determinant)
-    return [bit_field(octet_align=True, value=unconstrained_length_determinant + unconstrained_whole_number.value)]
+    octet_len = get_twos_complement_octet_len(integer)
+    unconstrained_whole_number = encode_unconstrained_whole_number(integer, octet_len)
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=octet_len,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [unconstrained_whole_number]
 
 
 def encode_unconstrained_whole_number(integer, unconstrained_length_determinant):    # 11.8
-- 
2.43.0


From 76c13729bc19e7f48fa0053b2ec31c8f8a404540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:56 +0000
Subject: [PATCH 10/61] fix: length 16384 does not fit in the 14 bit length
 determinant

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 350b113..0426e40 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -571,7 +571,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
             encoded_length_determinant_with_8th_bit_zero = bit_field(octet_align=encoded_length_determinant.octet_align,
                                                                      value= '0' + encoded_length_determinant.value)
             return [encoded_length_determinant_with_8th_bit_zero]
-        elif 127 < n <= 16384:    # 11.9.3.7
+        elif 127 < n < 16384:    # 11.9.3.7
             determinant_size = bit_field_size(octets=1, bits=6)
             encoded_length_determinant = encode_non_negative_binary_integer(value=n, size=determinant_size,
                                                                             octet_align=True)
-- 
2.43.0


From 5cddfb4d358ad995e1cd8ca70d70b189ecf3f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:59 +0000
Subject: [PATCH 11/61] fix: no padding after the constrained length of an
 empty BIT STRING or OCTET STRING (X.691 11.9.3.3)

---
 asn1PERser/codec/per/decoder.py | 3 ++-
 asn1PERser/codec/per/encoder.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 2a8672a..dfe3a76 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -208,7 +208,8 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
-            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
+            bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant),
+                                           octet_align=bitstring_length_determinant > 0)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 0426e40..5203369 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -154,7 +154,7 @@ def encode_bitstring(bitstring):    # 16
         else:
             raise NotImplemented
     else:    # 16.11
-        bitstring_bit_field = bit_field(octet_align=True, value=bitstring_value)
+        bitstring_bit_field = bit_field(octet_align=bitstring_len > 0, value=bitstring_value)
         if bitstring.subtypeSpec.upperEndpoint and bitstring.subtypeSpec.upperEndpoint < 65536:
             bitstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                      constrained=True,
@@ -210,7 +210,7 @@ def encode_octetstring(octetstring):
         else:
             raise NotImplemented
     else:    # 17.8
-        octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
+        octetstring_bit_field = bit_field(octet_align=octetstring_len > 0, value=octetstring_value)
         if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
-- 
2.43.0


From 35cf979f95d9e9d69b8e1697171538d0c74b2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:02 +0000
Subject: [PATCH 12/61] fix: SEQUENCE OF with upper size bound of 64K or more
 needs an unconstrained length (X.691 11.9.4.1)

---
 asn1PERser/codec/per/decoder.py | 2 +-
 asn1PERser/codec/per/encoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index dfe3a76..0c839c6 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -470,7 +470,7 @@ def decode_sequence_of(sequence_of, per_bytes):
     else:  # 20.6
         logger.info("%s: lowerEndpoint = %s and upperEndpoint = %s", sequence_of.__class__.__name__,
                     sequence_of.subtypeSpec.lowerEndpoint, sequence_of.subtypeSpec.upperEndpoint)
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = decode_length_determinant(normally_small_length=False,
                                                            constrained=True,
                                                            n=per_bytes,
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 5203369..25ac6b7 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -379,7 +379,7 @@ def encode_sequence_of(sequence_of):    # 20
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
-- 
2.43.0


From 57fbd46d4de908bc98ea0b2da7a6b09ec2717c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:04 +0000
Subject: [PATCH 13/61] fix: elements of a SEQUENCE (SIZE(0)) OF were encoded
 instead of being rejected

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 25ac6b7..0ce0d2d 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -374,7 +374,7 @@ def encode_sequence_of(sequence_of):    # 20
             return [extension_bit_field] + length_determinant + sequence_of_field_list
     elif n < sequence_of.subtypeSpec.lowerEndpoint:
         raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
-    elif sequence_of.subtypeSpec.upperEndpoint and (n > sequence_of.subtypeSpec.upperEndpoint):
+    elif sequence_of.subtypeSpec.upperEndpoint is not None and (n > sequence_of.subtypeSpec.upperEndpoint):
         raise InvalidComponentIndexIntoStructuredType('invalid index: {}'.format(sequence_of.subtypeSpec.upperEndpoint + 1))
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
-- 
2.43.0


From 0e323ceccf250eea3d36795c632c4bdd4054dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:07 +0000
Subject: [PATCH 14/61] fix: extension additions from another version of a
 SEQUENCE were misread or not skipped

---
 asn1PERser/codec/per/decoder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0c839c6..a5a1d37 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -377,7 +377,7 @@ def decode_sequence(sequence, per_bytes):
                                                                           lowerBound=None,
                                                                           upperBound=None)
         extension_addition_bit_field_value = per_bytes.next(size=bit_field_size(octets=0, bits=extension_addition_length_determinant))
-        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_bit_field_len)
+        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_length_determinant)
         logger.info("%s: extension bits: '%s'; within that: extension addition bits: '%s'; extension addition group bits: '%s'",
                     sequence.__class__.__name__,
                     extension_addition_bit_field_bits,
@@ -413,6 +413,10 @@ def decode_sequence(sequence, per_bytes):
                 else:
                     logger.info("%s: extension addition group number %s not present",
                                 sequence.__class__.__name__, group_index)
+        for is_present_bit in extension_addition_bit_field_bits[extension_addition_bit_field_len:]:
+            if int(is_present_bit):
+                logger.info("%s: skipping unknown extension addition", sequence.__class__.__name__)
+                skip_open_type_field(per_bytes)
     logger.info("%s: decoding finished.", sequence.__class__.__name__)
     return new_seq
 
@@ -630,6 +634,15 @@ def decode_open_type_field(type, per_bytes):
     return decoded
 
 
+def skip_open_type_field(per_bytes):
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
+    per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
+
+
 def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     logger.debug("function: decode_constrained_whole_number; params: per_bytes: (hidden), lowerBound: %s, "
                  "upperBound: %s", lowerBound, upperBound)
-- 
2.43.0


From 1ec7eafc82dcd2555f1203d0fd01c63b328a2185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 15/61] fix: truncated input was decoded from the bits left
 instead of being rejected

---
 asn1PERser/codec/per/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a5a1d37..8edac8a 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -50,6 +50,8 @@ class PerBytes(object):
         if octet_align:
             self.offset.align()
         bits = self[self.offset:self.offset + size]
+        if len(bits) < size.octets * 8 + size.bits:
+            raise ValueError("Not enough data to decode: %s bits needed, %s bits left" % (size.octets * 8 + size.bits, len(bits)))
         logger.debug("Bits taken: '%s'", 'none' if (size.octets == 0 and size.bits == 0) else "0b" + bits)
         val = int(bits, 2)
         return val
-- 
2.43.0


From 988e5a8542b3c81117e845c9b18367c5ab029ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:13 +0000
Subject: [PATCH 16/61] fix: decode changed the asn1Spec it was given and the
 component types shared by all decodes

---
 asn1PERser/codec/per/decoder.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 8edac8a..f6c8b9a 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -343,7 +343,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding optional component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = new_seq.getComponentByName(namedType.name)
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -355,7 +355,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding default component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = new_seq.getComponentByName(namedType.name)
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -365,7 +365,7 @@ def decode_sequence(sequence, per_bytes):
         else:
             logger.info("%s: decoding component: '%s' of type '%s' ...", sequence.__class__.__name__,
                         namedType.name, namedType.asn1Object.__class__.__name__)
-            componentType = sequence.getComponentByName(namedType.name)
+            componentType = new_seq.getComponentByName(namedType.name)
             decoded = componentType.create_field_list(per_bytes)
             logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
             new_seq[namedType.name] = decoded
@@ -392,7 +392,7 @@ def decode_sequence(sequence, per_bytes):
                 if int(is_present_bit):
                     logger.info("%s: extension addition component '%s' present. Decoding...", sequence.__class__.__name__,
                                 extensionNamedType.name)
-                    componentType = sequence.getComponentByName(extensionNamedType.name)
+                    componentType = new_seq.getComponentByName(extensionNamedType.name)
                     decoded = decode_open_type_field(componentType, per_bytes)
                     logger.info("%s: decoded extension addition component: '%s'", sequence.__class__.__name__, extensionNamedType.name)
                     new_seq[extensionNamedType.name] = decoded
@@ -516,7 +516,7 @@ def decode_choice(choice, per_bytes):    # 23
         if len(choice.rootComponent.namedTypes) == 1:  # 23.4
             logger.info("%s: length of choice list is 1", choice.__class__.__name__)
             selected_type = choice.rootComponent.namedTypes[0]
-            selected_component = choice.getComponentByName(selected_type.name)
+            selected_component = new_choice.getComponentByName(selected_type.name)
             logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...", choice.__class__.__name__,
                         selected_type.name, selected_component.__class__.__name__)
             val = selected_component.create_field_list(per_bytes)
@@ -527,7 +527,7 @@ def decode_choice(choice, per_bytes):    # 23
         else:    # 23.6
             index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
             namedType = choice.rootComponent.namedTypes[index]
-            selected_component = choice.getComponentByPosition(index)
+            selected_component = new_choice.getComponentByPosition(index)
             logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...", choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
             val = selected_component.create_field_list(per_bytes)
@@ -543,7 +543,7 @@ def decode_choice(choice, per_bytes):    # 23
             if len(choice.rootComponent.namedTypes) == 1:  # 23.4
                 logger.info("%s: length of choice list is 1", choice.__class__.__name__)
                 selected_type = choice.rootComponent.namedTypes[0]
-                selected_component = choice.getComponentByName(selected_type.name)
+                selected_component = new_choice.getComponentByName(selected_type.name)
                 logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...",
                             choice.__class__.__name__,
                             selected_type.name, selected_component.__class__.__name__)
@@ -556,7 +556,7 @@ def decode_choice(choice, per_bytes):    # 23
             else:
                 index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
                 namedType = choice.rootComponent.namedTypes[index]
-                selected_component = choice.getComponentByPosition(index)
+                selected_component = new_choice.getComponentByPosition(index)
                 logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...",
                             choice.__class__.__name__,
                             namedType.name, selected_component.__class__.__name__, index)
@@ -582,7 +582,7 @@ def decode_choice(choice, per_bytes):    # 23
                              choice.__class__.__name__)
                 raise NotImplemented
             namedType = choice_extension.namedTypes[index]
-            selected_component = choice.getComponentByName(namedType.name)
+            selected_component = new_choice.getComponentByName(namedType.name)
             logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices). Decoding...",
                         choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
-- 
2.43.0


From ab558f48a92cc49ad0f2c9ad094db490e4a884c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:20 +0000
Subject: [PATCH 17/61] fix: extensible constraints with a MIN, MAX or 64K and
 larger endpoint could not be encoded or decoded

---
 asn1PERser/codec/per/decoder.py |  9 +++++--
 asn1PERser/codec/per/encoder.py | 48 ++++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index f6c8b9a..7af9d5b 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,7 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, has_constrained_length
 
 
 __all__ = ['decode']
@@ -95,6 +95,11 @@ def decode_integer(integer, per_bytes):
             logger.info("%s: value: %s", integer.__class__.__name__, unconstrained_whole_number)
             logger.info("%s: decoding finished.", integer.__class__.__name__)
             return integer.__class__(unconstrained_whole_number)
+        elif is_semi_constrained_whole_number(integer):
+            return integer.__class__(decode_semi_constrained_whole_number_from_field_list(per_bytes=per_bytes,
+                                                                                          lowerBound=integer.subtypeSpec.lowerEndpoint))
+        elif not is_constrained_whole_number(integer):
+            return integer.__class__(decode_unconstrained_whole_number(per_bytes))
         else:
             constrained_whole_number = decode_constrained_whole_number_from_field_list(per_bytes=per_bytes,
                                                                                        lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
@@ -433,7 +438,7 @@ def decode_sequence_of(sequence_of, per_bytes):
         logger.info("%s: extension bit: %s", sequence_of.__class__.__name__, extension_bit_field)
         if not extension_bit_field:
             length_determinant = decode_length_determinant(normally_small_length=False,
-                                                           constrained=True,
+                                                           constrained=has_constrained_length(sequence_of.subtypeSpec),
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 0ce0d2d..25d849e 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -66,11 +66,15 @@ def encode_boolean(boolean):    # 12
 
 def encode_integer(integer):
     if integer.subtypeSpec.extensionMarker:    # 13.1
-        if integer.subtypeSpec.lowerEndpoint <= integer._value <= integer.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(integer._value, integer.subtypeSpec):
+            extension_bit_field = bit_field(octet_align=False, value='0')
+            if is_semi_constrained_whole_number(integer):
+                return [extension_bit_field] + create_field_list_for_semi_constrained_whole_number(integer)
+            if not is_constrained_whole_number(integer):
+                return [extension_bit_field] + create_field_list_for_unconstrained_whole_number(integer)
             constrained_whole_number_field_list = create_field_list_for_constrained_whole_number(n=integer._value,
                                                                                                  lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
-            extension_bit_field = bit_field(octet_align=False, value='0')
             return [extension_bit_field] + constrained_whole_number_field_list
         else:
             extension_bit_field = bit_field(octet_align=False, value='1')
@@ -85,15 +89,7 @@ def encode_integer(integer):
                                                                                                  upperEndpoint=integer.subtypeSpec.upperEndpoint)
             return constrained_whole_number_field_list
         elif is_semi_constrained_whole_number(integer):    # 13.2.3
-            semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,
-                                                                                 lower_bound=integer.subtypeSpec.lowerEndpoint)
-            n = int(len(semi_constrained_whole_number.value) / 8)
-            unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
-                                                                         constrained=False,
-                                                                         n=n,
-                                                                         lowerBound=1,
-                                                                         upperBound=None)
-            return unconstrained_length_determinant + [semi_constrained_whole_number]
+            return create_field_list_for_semi_constrained_whole_number(integer)
 
         else:    # 13.2.4
             unconstrained_whole_number_field_list = create_field_list_for_unconstrained_whole_number(integer)
@@ -126,7 +122,7 @@ def encode_bitstring(bitstring):    # 16
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-        if bitstring.subtypeSpec.lowerEndpoint <= bitstring_len <= bitstring.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(bitstring_len, bitstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             bitstring_bit_field = bit_field(octet_align=True, value=bitstring_value)
@@ -183,7 +179,7 @@ def encode_octetstring(octetstring):
 
     extension_bit_field = None
     if octetstring.subtypeSpec.extensionMarker:    # 17.3
-        if octetstring.subtypeSpec.lowerEndpoint <= octetstring_len <= octetstring.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(octetstring_len, octetstring.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
         else:
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
@@ -360,9 +356,10 @@ def encode_sequence_of(sequence_of):    # 20
     for component in sequence_of:
         component.fill_field_list(sequence_of_field_list)
     if sequence_of.subtypeSpec.extensionMarker:    #20.4
-        if sequence_of.subtypeSpec.lowerEndpoint <= n <= sequence_of.subtypeSpec.upperEndpoint:
+        if is_within_extension_root(n, sequence_of.subtypeSpec):
             extension_bit_field = bit_field(octet_align=False, value='0')
-            length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
+            length_determinant = encode_length_determinant(normally_small_length=False,
+                                                           constrained=has_constrained_length(sequence_of.subtypeSpec),
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             return [extension_bit_field] + length_determinant + sequence_of_field_list
@@ -522,6 +519,18 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
     return semi_constrained_whole_number
 
 
+def create_field_list_for_semi_constrained_whole_number(integer):
+    semi_constrained_whole_number = encode_semi_constrained_whole_number(n=integer._value,
+                                                                         lower_bound=integer.subtypeSpec.lowerEndpoint)
+    n = int(len(semi_constrained_whole_number.value) / 8)
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=n,
+                                                                 lowerBound=1,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [semi_constrained_whole_number]
+
+
 def create_field_list_for_unconstrained_whole_number(integer):
     octet_len = get_twos_complement_octet_len(integer)
     unconstrained_whole_number = encode_unconstrained_whole_number(integer, octet_len)
@@ -652,6 +661,15 @@ def is_semi_constrained_whole_number(integer):
     return False
 
 
+def is_within_extension_root(n, subtypeSpec):
+    return ((subtypeSpec.lowerEndpoint is None or subtypeSpec.lowerEndpoint <= n) and
+            (subtypeSpec.upperEndpoint is None or n <= subtypeSpec.upperEndpoint))
+
+
+def has_constrained_length(subtypeSpec):
+    return subtypeSpec.upperEndpoint is not None and subtypeSpec.upperEndpoint < 65536
+
+
 def is_constant(integer):
     return False
 
-- 
2.43.0


From 3329c12c3347aea354094d5ec59e244dc0aee79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:28 +0000
Subject: [PATCH 18/61] fix: BIT STRING that differs from its DEFAULT in length
 only was encoded as the default

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 25d849e..6823a46 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -250,7 +250,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType._NamedType__type._value != componentType._value:    # hacky...:) no other way for now
+            if namedType._NamedType__type != componentType:    # hacky...:) no other way for now
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
-- 
2.43.0


From 6d80a4681f000b59ba4f37be6a3bf837d958e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 19/61] fix: unset DEFAULT extension additions were encoded as
 present and required earlier additions

---
 asn1PERser/codec/per/encoder.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 6823a46..2372c28 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -275,7 +275,7 @@ def encode_sequence(sequence):    # 19
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = sequence.getComponentByName(namedType.name)
-                    if extensionComponentType.isValue:
+                    if is_extension_value(namedType, extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
@@ -294,7 +294,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '0'
                     previous_extensionComponent = {'name': namedType.name,
                                                    'present': bool(int(extension_addition_bit_field_value[-1])),
-                                                   'optional': namedType.isOptional}
+                                                   'optional': namedType.isOptional or namedType.isDefaulted}
             if sequence.extensionAdditionGroups:
                 for index_group, extensionAdditionGroup in enumerate(sequence.extensionAdditionGroups, start=1):
                     extension_addition_group_present = False
@@ -302,7 +302,7 @@ def encode_sequence(sequence):    # 19
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
                         extensionComponentType = sequence.getComponentByName(namedType.name)
-                        if extensionComponentType.isValue:
+                        if is_extension_value(namedType, extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
                             if not hasattr(extensionComponentType, '_componentValues'):
@@ -314,7 +314,7 @@ def encode_sequence(sequence):    # 19
                                     previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
-                                                            'optional': namedType.isOptional}
+                                                            'optional': namedType.isOptional or namedType.isDefaulted}
                         extension_group_components[index_group].append(previous_extensionGroupComponent)
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
@@ -350,6 +350,12 @@ def encode_sequence(sequence):    # 19
     return rootComponentFieldList
 
 
+def is_extension_value(namedType, component):
+    if namedType.isDefaulted:    # the default value is what is assumed when component is absent
+        return namedType.asn1Object != component
+    return component.isValue
+
+
 def encode_sequence_of(sequence_of):    # 20
     sequence_of_field_list = []
     n = len(sequence_of)
-- 
2.43.0


From 9a8043cfbf6eaa6461656e838d1b4b92458cecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 20/61] fix: missing mandatory extension addition followed by
 an absent optional one was not reported

---
 asn1PERser/codec/per/encoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 2372c28..a27eef7 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -292,6 +292,8 @@ def encode_sequence(sequence):    # 19
                                 extension_addition_bit_field_value += '0'
                     else:
                         extension_addition_bit_field_value += '0'
+                    if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
+                        continue    # still missing
                     previous_extensionComponent = {'name': namedType.name,
                                                    'present': bool(int(extension_addition_bit_field_value[-1])),
                                                    'optional': namedType.isOptional or namedType.isDefaulted}
-- 
2.43.0


From 6033d831c1fffdd37d9a514e57287565ea2b3168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:00 +0000
Subject: [PATCH 21/61] fix: present OPTIONAL and extension components of a
 constructed type with no content were dropped

---
 asn1PERser/codec/per/decoder.py |  2 +-
 asn1PERser/codec/per/encoder.py | 51 +++++++++++----------------------
 2 files changed, 18 insertions(+), 35 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7af9d5b..b6037cd 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -430,7 +430,7 @@ def decode_sequence(sequence, per_bytes):
 
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
-    new_seq_of = sequence_of.__class__()
+    new_seq_of = sequence_of.__class__().clear()
     component_type = sequence_of.getComponentType()
     if sequence_of.subtypeSpec.extensionMarker:  # 20.4
         logger.info("%s: extension marker should be present", sequence_of.__class__.__name__)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index a27eef7..42be465 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -1,6 +1,7 @@
 from collections import namedtuple
 from collections import defaultdict
 import codecs
+from pyasn1.type.base import noValue
 
 
 __all__ = ['encode']
@@ -232,18 +233,13 @@ def encode_sequence(sequence):    # 19
     rootComponentFieldList = []
     optional_default_bit_field_value = ''
     for namedType in sequence.rootComponent.namedTypes:
-        componentType = sequence.getComponentByName(namedType.name)
+        # a component that is not there must not be instantiated: an instance of a SEQUENCE
+        # with no mandatory components already is a value
+        componentType = sequence.getComponentByName(namedType.name, instantiate=not namedType.isOptional)
         if namedType.isOptional:    # 19.2
-            if componentType.isValue:
-                if not hasattr(componentType, '_componentValues'):
-                    optional_default_bit_field_value += '1'
-                    componentType.fill_field_list(rootComponentFieldList)
-                else:
-                    if len(componentType._componentValues) > 0:
-                        optional_default_bit_field_value += '1'
-                        componentType.fill_field_list(rootComponentFieldList)
-                    else:
-                        optional_default_bit_field_value += '0'
+            if componentType is not noValue:
+                optional_default_bit_field_value += '1'
+                componentType.fill_field_list(rootComponentFieldList)
             else:
                 optional_default_bit_field_value += '0'
         elif namedType.isDefaulted:    # 19.2
@@ -274,22 +270,14 @@ def encode_sequence(sequence):    # 19
             extension_group_components = defaultdict(list)
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
-                    extensionComponentType = sequence.getComponentByName(namedType.name)
+                    extensionComponentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
                     if is_extension_value(namedType, extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
-                        if not hasattr(extensionComponentType, '_componentValues'):
-                            extension_addition_bit_field_value += '1'
-                            open_type_field_list = encode_open_type_field(extensionComponentType)
-                            extension_addition_field_list.extend(open_type_field_list)
-                        else:
-                            if len(extensionComponentType._componentValues) > 0:
-                                extension_addition_bit_field_value += '1'
-                                open_type_field_list = encode_open_type_field(extensionComponentType)
-                                extension_addition_field_list.extend(open_type_field_list)
-                            else:
-                                extension_addition_bit_field_value += '0'
+                        extension_addition_bit_field_value += '1'
+                        open_type_field_list = encode_open_type_field(extensionComponentType)
+                        extension_addition_field_list.extend(open_type_field_list)
                     else:
                         extension_addition_bit_field_value += '0'
                     if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
@@ -303,17 +291,12 @@ def encode_sequence(sequence):    # 19
                     previous_extensionGroupComponent = {}
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
-                        extensionComponentType = sequence.getComponentByName(namedType.name)
+                        extensionComponentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
                         if is_extension_value(namedType, extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
-                            if not hasattr(extensionComponentType, '_componentValues'):
-                                extension_addition_group_present = True
-                                previous_extension_addition_group_component_present = True
-                            else:
-                                if len(extensionComponentType._componentValues) > 0:
-                                    extension_addition_group_present = True
-                                    previous_extension_addition_group_component_present = True
+                            extension_addition_group_present = True
+                            previous_extension_addition_group_component_present = True
                         previous_extensionGroupComponent = {'name': namedType.name,
                                                             'present': previous_extension_addition_group_component_present,
                                                             'optional': namedType.isOptional or namedType.isDefaulted}
@@ -330,7 +313,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-                            componentType = sequence.getComponentByName(namedType.name)
+                            componentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
                             group_sequence._componentValues.append(componentType)
                         encoded = encode_open_type_field(group_sequence)
                         encoded_extension_addition_groups.extend(encoded)
@@ -355,7 +338,7 @@ def encode_sequence(sequence):    # 19
 def is_extension_value(namedType, component):
     if namedType.isDefaulted:    # the default value is what is assumed when component is absent
         return namedType.asn1Object != component
-    return component.isValue
+    return component is not noValue
 
 
 def encode_sequence_of(sequence_of):    # 20
@@ -696,7 +679,7 @@ def create_new_fake_empty_sequence(rootComponent):
             if sequence_field_list:
                 field_list.extend(sequence_field_list)
 
-        def getComponentByName(self, name):
+        def getComponentByName(self, name, instantiate=True):
             idx = self.rootComponent.getPositionByName(name)
             return self._componentValues[idx]
 
-- 
2.43.0


From 1b32da4e7cc6b46269e265728ebbafd7e8b3a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:02 +0000
Subject: [PATCH 22/61] fix: to_dict lost empty components and added absent
 ones to the object it reads

---
 asn1PERser/classes/data/builtin/ChoiceType.py    |  5 +----
 .../classes/data/builtin/SequenceOfType.py       |  9 +--------
 asn1PERser/classes/data/builtin/SequenceType.py  | 16 ++++++----------
 3 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/ChoiceType.py b/asn1PERser/classes/data/builtin/ChoiceType.py
index 92e5cd7..5597e60 100644
--- a/asn1PERser/classes/data/builtin/ChoiceType.py
+++ b/asn1PERser/classes/data/builtin/ChoiceType.py
@@ -22,7 +22,4 @@ class ChoiceType(Choice):
     def to_dict(self, is_root=True):
         for componentType, componentValue in self.items():
             if componentValue is not noValue and componentValue.isValue:
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    return {componentType: value_dict}
-                return {}
+                return {componentType: componentValue.to_dict(is_root=False)}
diff --git a/asn1PERser/classes/data/builtin/SequenceOfType.py b/asn1PERser/classes/data/builtin/SequenceOfType.py
index 1fc7c2d..aec07c7 100644
--- a/asn1PERser/classes/data/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/data/builtin/SequenceOfType.py
@@ -20,12 +20,5 @@ class SequenceOfType(SequenceOf):
         component_list = []
         for componentValue in self:
             if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_list.append(value_dict)
-
-        if is_root:
-            return component_list
-        if not component_list:
-            return noValue
+                component_list.append(componentValue.to_dict(is_root=False))
         return component_list
diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 21f88c2..499c9d5 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -34,14 +34,10 @@ class SequenceType(Sequence):
 
     def to_dict(self, is_root=True):
         component_dict = OrderedDict()
-        for componentType, componentValue in self.items():
-            if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
-                value_dict = componentValue.to_dict(is_root=False)
-                if value_dict is not noValue:
-                    component_dict[componentType] = value_dict
-
-        if is_root:
-            return component_dict
-        if not component_dict:
-            return noValue
+        for namedType in self.componentType.namedTypes:
+            componentValue = self.getComponentByName(namedType.name, instantiate=False)
+            if componentValue is noValue and namedType.isDefaulted:
+                componentValue = namedType.asn1Object
+            if componentValue is not noValue:
+                component_dict[namedType.name] = componentValue.to_dict(is_root=False)
         return component_dict
-- 
2.43.0


From 029b96a68f37624d8aef36b1f38f35cefcaf02e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:31 +0000
Subject: [PATCH 23/61] fix: SEQUENCE with nothing but absent extension
 additions was not taken for a value

---
 asn1PERser/classes/data/builtin/SequenceType.py | 7 ++++---
 asn1PERser/codec/per/decoder.py                 | 5 ++++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 499c9d5..b7b601d 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -16,12 +16,13 @@ class SequenceType(Sequence):
         base_isValue = super(SequenceType, self).isValue
         if base_isValue:
             return base_isValue
-        if self.components is noValue:
+        if self._componentValues is noValue:
             return False
-        for component in self.components:
+        for component in self._componentValues:
             if component is not noValue and component.isValue:
                 return True
-        return False
+        # extension additions may always be absent
+        return all(namedType.isOptional or namedType.isDefaulted for namedType in self.rootComponent.namedTypes)
 
     def fill_field_list(self, field_list):
         sequence_field_list = encode_sequence(self)
diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index b6037cd..763ea45 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -321,7 +321,7 @@ def decode_octetstring(octetstring, per_bytes):
 
 def decode_sequence(sequence, per_bytes):
     logger.info("Decoding sequence: %s", sequence.__class__.__name__)
-    new_seq = sequence.__class__()
+    new_seq = sequence.__class__().clear()
     extension_bit = 0
     optional_default_bit_field_len = 0
     optional_default_bit_field_value = 0
@@ -770,6 +770,9 @@ def create_new_fake_empty_sequence(rootComponent):
         def __init__(self):
             self.named_types = {}
 
+        def clear(self):
+            return self
+
         def create_field_list(self, per_bytes):
             return decode_sequence(self, per_bytes)
 
-- 
2.43.0


From 20b751e7e4b2863b3de5a0f7f99f449ae3fb1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:13 +0000
Subject: [PATCH 24/61] fix: endpoints of ConstraintAnd were those of a union,
 MIN and MAX operands were not supported

---
 asn1PERser/classes/types/constraint.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index c563c5f..6d829bc 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -89,8 +89,10 @@ class ValueSize(ValueSizeConstraint):
 class ConstraintOr(ConstraintsUnion):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints]
+        self.lowerEndpoint = None if None in lower_endpoints else min(lower_endpoints)
+        self.upperEndpoint = None if None in upper_endpoints else max(upper_endpoints)
         super(ConstraintOr, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
@@ -101,8 +103,10 @@ class ConstraintOr(ConstraintsUnion):
 class ConstraintAnd(ConstraintsIntersection):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = min([constraint.lowerEndpoint for constraint in constraints])
-        self.upperEndpoint = max([constraint.upperEndpoint for constraint in constraints])
+        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints if constraint.lowerEndpoint is not None]
+        upper_endpoints = [constraint.upperEndpoint for constraint in constraints if constraint.upperEndpoint is not None]
+        self.lowerEndpoint = max(lower_endpoints) if lower_endpoints else None
+        self.upperEndpoint = min(upper_endpoints) if upper_endpoints else None
         super(ConstraintAnd, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 84a9762446163655324671dd635a09b347c5ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:22 +0000
Subject: [PATCH 25/61] fix: types and constants of schemas parsed before
 leaked into the generated code

---
 asn1PERser/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 61e044d..6c129cd 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,6 +1,6 @@
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
-from asn1PERser.classes.module import remove_comments
+from asn1PERser.classes.module import remove_comments, typereference_to_type, constants
 from asn1PERser.asn_definitions.module_def import ModuleDefinition
 from asn1PERser.logging_setup import asn1perser_logging_setup
 
@@ -10,6 +10,8 @@ __all__ = ['decode', 'encode', 'parse_asn1_schema']
 asn1perser_logging_setup()
 
 def parse_asn1_schema(asn1_schema, output_folder=None):
+    typereference_to_type.clear()
+    constants.clear()
     no_comment_schema = remove_comments(asn1_schema)
     parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
     return parsed_asn.create_python_template(path=output_folder)
-- 
2.43.0


From f44ee40f6c16149b84797f49f2050cba6d5af426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:25 +0000
Subject: [PATCH 26/61] fix: comments closed by a pair of hyphens swallowed the
 rest of the line, block comments were not supported

---
 asn1PERser/classes/module.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1007edd..d7c54f2 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -197,13 +197,26 @@ class ModuleDefinition(Template):
 
 
 def remove_comments(asn1_schema):
-    return _remove_line_comments(asn1_schema)
-
-
-def _remove_line_comments(asn1_schema):
+    asn1_schema = '\n'.join(asn1_schema.splitlines()) + '\n'
+    line_comment = re.compile('--.*?(--|$)', re.MULTILINE)    # X.680 12.6.3
     no_comments = ''
-    for line in asn1_schema.splitlines():
-        line = re.sub('--.*', '', line)
-        line += '\n'
-        no_comments += line
+    block_comment_depth = 0    # X.680 12.6.4
+    index = 0
+    while index < len(asn1_schema):
+        if asn1_schema.startswith('/*', index):
+            block_comment_depth += 1
+            index += 2
+        elif block_comment_depth:
+            if asn1_schema.startswith('*/', index):
+                block_comment_depth -= 1
+                index += 2
+                no_comments += ' '
+            else:
+                index += 1
+        elif asn1_schema.startswith('--', index):
+            index = line_comment.match(asn1_schema, index).end()
+            no_comments += ' '
+        else:
+            no_comments += asn1_schema[index]
+            index += 1
     return no_comments
-- 
2.43.0


From 6ba840d821e6d1b84ef6d6f48587cdaa39924d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:57 +0000
Subject: [PATCH 27/61] fix: version number of an extension addition group
 broke parsing

---
 asn1PERser/asn_definitions/type_def.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 3911105..488804c 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -173,7 +173,7 @@ NullType = NULL
 # 25.1
 VersionNumber = Or([
     empty,
-    number + COLON
+    (number + COLON).suppress()
 ])
 
 
-- 
2.43.0


From ecc45171eb2250b6c91cef428ebf64c86f52fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 28/61] fix: additional element sets after the extension marker
 widened the extension root

---
 asn1PERser/classes/parse_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 1f0a662..b9d6d75 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -184,6 +184,6 @@ def parse_Constraint(toks):
     parsed = list(Constraint.parseString(constraint))
     ext_mark = False
     if '...' in parsed:
-        parsed.remove('...')
+        parsed = parsed[:parsed.index('...')]    # what follows are extensions, PER-visible is only the root
         ext_mark = True
     return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
-- 
2.43.0


From 224a320fd285bfdd249815821993fe3b1971fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:05 +0000
Subject: [PATCH 29/61] fix: root components after the second extension marker
 were taken for extension additions

---
 asn1PERser/classes/types/builtin/SequenceType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 4013c19..c350453 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -18,6 +18,7 @@ class SequenceType(ComponentType):
         single_extension_group = []
         in_extension_addition_group = False
         extension_marker_present = False
+        in_extension_root = True
         for ComponentType in self.ComponentTypeList:
             if ComponentType == '[[':
                 in_extension_addition_group = True
@@ -31,9 +32,10 @@ class SequenceType(ComponentType):
                 single_extension_group.append(self._fill_named_types(ComponentType))
             if ComponentType == '...':
                 extension_marker_present = True
+                in_extension_root = not in_extension_root    # X.680 25.1: 2nd marker ends extension additions
                 continue
             if not in_extension_addition_group:
-                if not extension_marker_present:
+                if in_extension_root:
                     root_named_types.append(self._fill_named_types(ComponentType))
                 else:
                     addition_named_types.append(self._fill_named_types(ComponentType))
-- 
2.43.0


From bd2fb4bced280aae9fbab25704e428d93baa3db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:08 +0000
Subject: [PATCH 30/61] fix: references to values with a hyphen in their name
 generated invalid code

---
 asn1PERser/classes/parse_actions.py              | 9 ++++++++-
 asn1PERser/classes/types/builtin/IntegerType.py  | 5 +++++
 asn1PERser/classes/types/builtin/SequenceType.py | 4 ++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index b9d6d75..ae6bb49 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -186,4 +186,11 @@ def parse_Constraint(toks):
     if '...' in parsed:
         parsed = parsed[:parsed.index('...')]    # what follows are extensions, PER-visible is only the root
         ext_mark = True
-    return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
+    return constraint_tuple(lowerEndpoint=endpoint_to_python(parsed[0]), upperEndpoint=endpoint_to_python(parsed[-1]),
+                            extensionMarker=ext_mark)
+
+
+def endpoint_to_python(endpoint):
+    if endpoint[0].isalpha():    # value reference
+        return endpoint.replace('-', '_')
+    return endpoint
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 40c6107..993beda 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -24,3 +24,8 @@ class IntegerType(SimpleType):
             already_filled_template.add(filled_template)
             return filled_template
         return ''
+
+    def parse_value(self, value):
+        if value[0].isalpha():    # value reference
+            return value.replace('-', '_')
+        return value
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index c350453..65571e7 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -96,9 +96,9 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            if ComponentType.default in constants.keys():
+            if str(ComponentType.default).replace('-', '_') in constants.keys():
                 named_type_properties['is_constant'] = True;
-                named_type_properties['default_value'] = str(ComponentType.default)
+                named_type_properties['default_value'] = str(ComponentType.default).replace('-', '_')
             else:
                 if ComponentType.typereference in typereference_to_type.keys():
                     named_type_properties['default_value'] = typereference_to_type[ComponentType.typereference].parse_value(ComponentType.default)
-- 
2.43.0


From ad3f3df22f0ae1b03d4d106394f12053cb38deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:45 +0000
Subject: [PATCH 31/61] fix: DEFAULT of a type assigned to another type
 generated invalid code

---
 asn1PERser/classes/types/builtin/SequenceType.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 65571e7..327591b 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -101,7 +101,11 @@ class SequenceType(ComponentType):
                 named_type_properties['default_value'] = str(ComponentType.default).replace('-', '_')
             else:
                 if ComponentType.typereference in typereference_to_type.keys():
-                    named_type_properties['default_value'] = typereference_to_type[ComponentType.typereference].parse_value(ComponentType.default)
+                    defined_type = typereference_to_type[ComponentType.typereference]
+                    while defined_type.typereference in typereference_to_type.keys() and \
+                            defined_type is not typereference_to_type[defined_type.typereference]:    # Foo ::= Bar
+                        defined_type = typereference_to_type[defined_type.typereference]
+                    named_type_properties['default_value'] = defined_type.parse_value(ComponentType.default)
                 else:
                     named_type_properties['default_value'] = str(ComponentType.default)
         else:
-- 
2.43.0


From 3489347cd5ca4fefc4574f88152521e338e86570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:49 +0000
Subject: [PATCH 32/61] fix: component with a DEFAULT constant of another type
 took over the type of that constant

---
 asn1PERser/classes/types/builtin/SequenceType.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 327591b..0048882 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -96,7 +96,8 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            if str(ComponentType.default).replace('-', '_') in constants.keys():
+            constant = constants.get(str(ComponentType.default).replace('-', '_'))
+            if constant is not None and constant.typereference == ComponentType.typereference:
                 named_type_properties['is_constant'] = True;
                 named_type_properties['default_value'] = str(ComponentType.default).replace('-', '_')
             else:
-- 
2.43.0


From 97fe6bfac4bf18c5a40f9a41d2a96a9b2e5d69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:52 +0000
Subject: [PATCH 33/61] fix: references to values of other types than INTEGER
 were lost, white space in bstring and hstring was kept

---
 asn1PERser/classes/types/builtin/BitStringType.py   | 6 ++++--
 asn1PERser/classes/types/builtin/BooleanType.py     | 6 ++++--
 asn1PERser/classes/types/builtin/OctetStringType.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index f3b89f4..9e37eb1 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -26,7 +26,9 @@ class BitStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
+        if not value.startswith("'"):    # value reference
+            return value.replace('-', '_')
         if value.endswith('B'):
-            return "binValue={}".format(value[:-1])
+            return "binValue={}".format(''.join(value[:-1].split()))
         if value.endswith('H'):
-            return "hexValue={}".format(value[:-1])
+            return "hexValue={}".format(''.join(value[:-1].split()))
diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 71f74c0..2081c6a 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -9,7 +9,7 @@ class BooleanType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if isinstance(self.Value, bool):
+        if self.Value is not None:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
@@ -25,4 +25,6 @@ class BooleanType(SimpleType):
     def parse_value(self, value):
         if value == 'TRUE':
             return True
-        return False
+        if value == 'FALSE':
+            return False
+        return value.replace('-', '_')    # value reference
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index e1f1cdc..98ddc0a 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -26,7 +26,9 @@ class OctetStringType(SimpleType):
         return ''
 
     def parse_value(self, value):
+        if not value.startswith("'"):    # value reference
+            return value.replace('-', '_')
         if value.endswith('B'):
-            return "binValue={}".format(value[:-1])
+            return "binValue={}".format(''.join(value[:-1].split()))
         if value.endswith('H'):
-            return "hexValue={}".format(value[:-1])
+            return "hexValue={}".format(''.join(value[:-1].split()))
-- 
2.43.0


From fdfa5549bc674867e3d628d37ad2b2b969ed64cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:56 +0000
Subject: [PATCH 34/61] fix: names that are Python keywords generated invalid
 code

---
 asn1PERser/classes/templates/__init__.py        | 10 ++++++++--
 asn1PERser/classes/types/builtin/DefinedType.py |  7 ++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index 2ad4066..c481e81 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -1,3 +1,4 @@
+from keyword import iskeyword
 from .creator import template_filler
 
 
@@ -7,8 +8,13 @@ class Template(object):
 
     @property
     def template_class_name(self):
-        return self.identifier.replace('-','_') if self.identifier else self.typereference.replace('-','_')
+        return python_name(self.identifier if self.identifier else self.typereference)
 
     @property
     def template_field_type(self):
-        return self.typereference.replace('-','_') if self.typereference else self.identifier.replace('-','_')
+        return python_name(self.typereference if self.typereference else self.identifier)
+
+
+def python_name(name):
+    name = name.replace('-', '_')
+    return name + '_' if iskeyword(name) else name
diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index fc3df2b..bdd0a15 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -1,5 +1,6 @@
 from ..type import DefType, SimpleType
 from asn1PERser.classes.module import typereference_to_type
+from asn1PERser.classes.templates import python_name
 from asn1PERser.classes.templates.creator import template_filler
 
 
@@ -13,8 +14,8 @@ class DefinedType(DefType):
 
         if self.identifier and self.typereference and not self.Value:  # Foo ::= Bar
             return template_filler.fill(asn_type='type_type', type_or_value='type',
-                                        identifier=self.identifier.replace('-', '_'),
-                                        typereference=self.typereference.replace('-', '_'))
+                                        identifier=python_name(self.identifier),
+                                        typereference=python_name(self.typereference))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
             while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
@@ -24,7 +25,7 @@ class DefinedType(DefType):
             defined_type.Value = self.Value
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
-                                        class_type=self.typereference.replace('-','_'),
+                                        class_type=python_name(self.typereference),
                                         value=defined_type.Value)
         if self.Value:
             defined_type.Value = self.Value
-- 
2.43.0


From c31becdf39d37eda9eb93db8615d8397722293d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:32 +0000
Subject: [PATCH 35/61] fix: inline element type of SEQUENCE OF lost its
 constraint or replaced a builtin type of the whole module

---
 .../templates/files/SequenceOfType.txt        |  5 ++++
 .../classes/types/builtin/SequenceOfType.py   | 28 +++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/templates/files/SequenceOfType.txt b/asn1PERser/classes/templates/files/SequenceOfType.txt
index f1c1cd7..afd9b8d 100644
--- a/asn1PERser/classes/templates/files/SequenceOfType.txt
+++ b/asn1PERser/classes/templates/files/SequenceOfType.txt
@@ -1,4 +1,9 @@
 class {{ class_name }}({{ class_type }}):
+{%- filter indent(width=4) %}
+{%- for template in subtemplates %}
+{{ template }}
+{%- endfor %}
+{%- endfilter %}
 {%- if constraint.lowerEndpoint and constraint.upperEndpoint and constraint.extensionMarker %}
     subtypeSpec = SequenceOfValueSize({{ constraint.lowerEndpoint }}, {{ constraint.upperEndpoint }}, extensionMarker=True)
 {%- elif constraint.lowerEndpoint and constraint.upperEndpoint %}
diff --git a/asn1PERser/classes/types/builtin/SequenceOfType.py b/asn1PERser/classes/types/builtin/SequenceOfType.py
index b698562..3adb40a 100644
--- a/asn1PERser/classes/types/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/types/builtin/SequenceOfType.py
@@ -1,6 +1,6 @@
 from ..type import ComponentType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template
+from asn1PERser.classes.module import already_filled_template, typereference_to_type
 
 
 class SequenceOfType(ComponentType):
@@ -10,22 +10,38 @@ class SequenceOfType(ComponentType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
+        subtypes_templates = []
+        components_templates = []
+        if self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+            if self.ComponentType.is_constrained():
+                _, subtypes_template = self.ComponentType.fill_template(has_parent=True)
+                subtypes_templates.append(subtypes_template[:-2])    # remove 2 last new line characters
+        elif self.ComponentType.typereference in ['ChoiceType', 'SequenceType', 'EnumeratedType', 'SequenceOfType']:
+            inner_defined_templates, subtypes_template = self.ComponentType.fill_template(has_parent=True)
+            subtypes_templates.append(subtypes_template[:-2])
+            if inner_defined_templates:
+                components_templates.extend(inner_defined_templates)
+        else:
+            components_templates.append(self.ComponentType)
         filled_template = template_filler.fill(asn_type=self.__class__.__name__,
                                                class_name=self.template_class_name,
                                                class_type=self.__class__.__name__,
+                                               subtemplates=subtypes_templates,
                                                field_type=self.ComponentType.template_field_type,
                                                constraint={'extensionMarker': self.constraint.extensionMarker,
                                                            'lowerEndpoint': self.constraint.lowerEndpoint,
                                                            'upperEndpoint': self.constraint.upperEndpoint})
         if has_parent:
-            return ([self.ComponentType], filled_template)
+            return (components_templates, filled_template)
         if filled_template in already_filled_template:
             return ''
         already_filled_template.add(filled_template)
-        if self.ComponentType.typereference in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
-            return filled_template
-        components_template = self.ComponentType.fill_template()
-        return components_template + filled_template
+        filled_component_template_str = ''
+        for component_template in components_templates:
+            if component_template.default or component_template.typereference in typereference_to_type.keys():
+                continue
+            filled_component_template_str += component_template.fill_template()
+        return filled_component_template_str + filled_template
 
     @property
     def ComponentType(self):
-- 
2.43.0


From 5cd7326d5a2541f7de873d5182d829d84dfdc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 36/61] fix: types and values were used before their definition
 in the generated code

---
 asn1PERser/classes/module.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index d7c54f2..409dd89 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -58,7 +58,39 @@ class ModuleDefinition(Template):
                 component_type_assignments.append(assignment)
         component_type_assignments = self.sort_components(component_type_assignments)
         type_type_assignments, component_type_assignments = self.additional_sort(type_type_assignments, component_type_assignments)
-        return [] + value_assignments + simple_type_assignments + type_type_assignments + constant_assignments + component_type_assignments
+        return self.sort_by_references(value_assignments + simple_type_assignments + type_type_assignments +
+                                       constant_assignments + component_type_assignments)
+
+    def sort_by_references(self, assignments):
+        names = {}
+        for assignment in assignments:
+            name = assignment.valuereference or assignment.identifier or assignment.typereference
+            names[name.replace('-', '_')] = assignment
+        visited = set()
+        new_order = []
+
+        def visit(assignment):
+            if id(assignment) in visited:
+                return
+            visited.add(id(assignment))
+            for reference in self._get_references(assignment):
+                if reference in names:
+                    visit(names[reference])
+            new_order.append(assignment)
+
+        for assignment in assignments:
+            visit(assignment)
+        return new_order
+
+    def _get_references(self, type_):
+        references = [type_.typereference, type_.constraint.lowerEndpoint, type_.constraint.upperEndpoint,
+                      type_.Value, type_.default]
+        references = [str(reference).replace('-', '_') for reference in references]
+        if isinstance(type_, ComponentType):
+            for subcomponent in type_:
+                if not isinstance(subcomponent, str):  # elipsis: ...
+                    references += self._get_references(subcomponent)
+        return references
 
     def sort_components(self, component_type_assignments):
         MAX_ITERATIONS = 100
-- 
2.43.0


From 5b4c487cc434f1d543d5bb6160d85d013f01a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:38 +0000
Subject: [PATCH 37/61] fix: ENUMERATED with numbers generated invalid code

---
 .../classes/types/builtin/EnumeratedType.py    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index b96cd3c..756ef57 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -14,7 +14,7 @@ class EnumeratedType(SimpleType):
         addition_named_values = []
         extension_marker_present = False
         enumeration_index = 0
-        for EnumerationItem in self.EnumerationItems:
+        for EnumerationItem in self.canonical_enumeration_items():
             if EnumerationItem == '...':
                 extension_marker_present = True
                 continue
@@ -38,6 +38,22 @@ class EnumeratedType(SimpleType):
         already_filled_template.add(filled_template)
         return filled_template
 
+    def canonical_enumeration_items(self):    # X.680 20.3, X.691 14.1: root is ordered by (assigned) numbers
+        root = list(self.EnumerationItems)
+        additions = []
+        if '...' in root:
+            additions = root[root.index('...'):]
+            root = root[:root.index('...')]
+        numbers = dict((name, int(number)) for item in root if isinstance(item, dict) for number, name in item.items())
+        next_number = 0
+        for item in root:
+            if not isinstance(item, dict):
+                while next_number in numbers.values():
+                    next_number += 1
+                numbers[item] = next_number
+        return sorted(numbers, key=numbers.get) + [list(item.values())[0] if isinstance(item, dict) else item
+                                                   for item in additions]
+
     @property
     def EnumerationItems(self):
         return self._EnumerationItems
-- 
2.43.0


From 963026887f13e842ee3b2b0f4f85561355ce721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:41 +0000
Subject: [PATCH 38/61] fix: BIT STRING hexValue='' raised, OCTET STRING
 binValue='' was one zero octet

---
 asn1PERser/classes/data/builtin/BitStringType.py   | 6 ++++++
 asn1PERser/classes/data/builtin/OctetStringType.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/BitStringType.py b/asn1PERser/classes/data/builtin/BitStringType.py
index 8b9b62a..f080f75 100644
--- a/asn1PERser/classes/data/builtin/BitStringType.py
+++ b/asn1PERser/classes/data/builtin/BitStringType.py
@@ -7,6 +7,12 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class BitStringType(BitString):
     subtypeSpec = NoConstraint()
 
+    @classmethod
+    def fromHexString(cls, value, internalFormat=False, prepend=None):
+        if not value:
+            return cls.fromBinaryString(value, internalFormat=internalFormat, prepend=prepend)
+        return super(BitStringType, cls).fromHexString(value, internalFormat=internalFormat, prepend=prepend)
+
     def fill_field_list(self, field_list):
         bitstring_field_list = encode_bitstring(self)
         if bitstring_field_list:
diff --git a/asn1PERser/classes/data/builtin/OctetStringType.py b/asn1PERser/classes/data/builtin/OctetStringType.py
index 5f7577a..804386a 100644
--- a/asn1PERser/classes/data/builtin/OctetStringType.py
+++ b/asn1PERser/classes/data/builtin/OctetStringType.py
@@ -7,6 +7,10 @@ from asn1PERser.classes.types.constraint import NoConstraint
 class OctetStringType(OctetString):
     subtypeSpec = NoConstraint()
 
+    @staticmethod
+    def fromBinaryString(value):
+        return OctetString.fromBinaryString(value) if value else b''
+
     def fill_field_list(self, field_list):
         octetstring_field_list = encode_octetstring(self)
         if octetstring_field_list:
-- 
2.43.0


From 6419f82a1a46302b7ccaa84c3f40c45241bdc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:20 +0000
Subject: [PATCH 39/61] fix: raise when a mandatory constructed component was
 never set

---
 asn1PERser/codec/per/encoder.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 42be465..cab4a6a 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -15,6 +15,10 @@ class PerEncodingException(Exception):
     pass
 
 
+class MandatoryFieldNotPresent(PerEncodingException):
+    pass
+
+
 class MandatoryExtensionFieldNotPresent(PerEncodingException):
     pass
 
@@ -235,7 +239,7 @@ def encode_sequence(sequence):    # 19
     for namedType in sequence.rootComponent.namedTypes:
         # a component that is not there must not be instantiated: an instance of a SEQUENCE
         # with no mandatory components already is a value
-        componentType = sequence.getComponentByName(namedType.name, instantiate=not namedType.isOptional)
+        componentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
         if namedType.isOptional:    # 19.2
             if componentType is not noValue:
                 optional_default_bit_field_value += '1'
@@ -251,6 +255,8 @@ def encode_sequence(sequence):    # 19
                 componentType.fill_field_list(rootComponentFieldList)
             else:
                 optional_default_bit_field_value += '0'
+        elif componentType is noValue:
+            raise MandatoryFieldNotPresent(namedType.name)
         else:
             componentType.fill_field_list(rootComponentFieldList)
     if optional_default_bit_field_value:
-- 
2.43.0


From 7252a28ab476afbaf86977e4a91cc86d70604ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:34 +0000
Subject: [PATCH 40/61] fix: raise when a mandatory extension addition is
 missing and a later addition group is present

---
 asn1PERser/codec/per/encoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index cab4a6a..33b54d2 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -310,6 +310,8 @@ def encode_sequence(sequence):    # 19
                     if not extension_addition_group_present:
                         extension_addition_bit_field_value += '0'
                     else:
+                        if sequence.extensionAddition and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
+                            raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
                         if (index_group > 1):
                             for previous_extension_group_component in extension_group_components[index_group - 1]:
                                 if previous_extension_group_component['present'] or previous_extension_group_component['optional']:
-- 
2.43.0


From 0da090590c15e646faa933dbf1fa404c88e7f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:36 +0000
Subject: [PATCH 41/61] fix: raise when the number of an enumeration item is
 not defined

---
 asn1PERser/codec/per/encoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 33b54d2..5cc9bab 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -102,6 +102,8 @@ def encode_integer(integer):
 
 
 def encode_enumerated(enumerated):
+    if enumerated._value not in enumerated.namedValues.values():
+        raise ValueError('{} is not one of {}'.format(enumerated._value, enumerated.namedValues))
     if not enumerated.subtypeSpec.extensionMarker:    # 14.2
         return create_field_list_for_constrained_whole_number(n=enumerated._value, lowerEndpoint=0,
                                                               upperEndpoint=len(list(enumerated.namedValues)) - 1)
-- 
2.43.0


From 61371519ef81e8192c21bc2825a040f1f32bf943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:58 +0000
Subject: [PATCH 42/61] fix: raise when a mandatory addition group is missing
 and any later group is present

---
 asn1PERser/codec/per/encoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 5cc9bab..70b4c30 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -314,12 +314,12 @@ def encode_sequence(sequence):    # 19
                     else:
                         if sequence.extensionAddition and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
-                        if (index_group > 1):
-                            for previous_extension_group_component in extension_group_components[index_group - 1]:
+                        for previous_group in range(1, index_group):
+                            for previous_extension_group_component in extension_group_components[previous_group]:
                                 if previous_extension_group_component['present'] or previous_extension_group_component['optional']:
                                     break
                             else:
-                                raise MandatoryExtensionFieldNotPresent(extension_group_components[index_group - 1][0]['name'])
+                                raise MandatoryExtensionFieldNotPresent(extension_group_components[previous_group][0]['name'])
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-- 
2.43.0


From 6326136830e8f8ec705ad2e21c94186d5ae2a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:01 +0000
Subject: [PATCH 43/61] fix: an OPTIONAL list with an incomplete element was
 left out of the message silently

---
 asn1PERser/classes/data/builtin/SequenceOfType.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1PERser/classes/data/builtin/SequenceOfType.py b/asn1PERser/classes/data/builtin/SequenceOfType.py
index aec07c7..88deb62 100644
--- a/asn1PERser/classes/data/builtin/SequenceOfType.py
+++ b/asn1PERser/classes/data/builtin/SequenceOfType.py
@@ -7,6 +7,15 @@ from asn1PERser.classes.types.constraint import SequenceOfValueSize, MAX
 class SequenceOfType(SequenceOf):
     subtypeSpec = SequenceOfValueSize(0, MAX)
 
+    @property
+    def isValue(self):
+        if super(SequenceOfType, self).isValue:
+            return True
+        if self._componentValues is noValue:
+            return False
+        # a list with elements is there, even if some of them are incomplete
+        return any(component is not noValue and component.isValue for component in self)
+
     def fill_field_list(self, field_list):
         sequence_of_field_list = encode_sequence_of(self)
         if sequence_of_field_list:
-- 
2.43.0


From d6b8ee72929c923d8c3f60e4629f359e41261147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:01 +0000
Subject: [PATCH 44/61] fix: numbers, lengths and indexes above their upper
 bound were decoded in extensible types

---
 asn1PERser/codec/per/decoder.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 763ea45..6053323 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -612,7 +612,7 @@ def decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint, up
                                                                    upperBound=upperBound)
 
         val = per_bytes.next(bit_field_size(octets=constrained_length_determinant, bits=0), octet_align=True)
-        return lowerEndpoint + val
+        return verify_upper_bound(lowerEndpoint + val, upperEndpoint)
 
 
 def decode_semi_constrained_whole_number_from_field_list(per_bytes, lowerBound):
@@ -671,7 +671,13 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
                                                                          octet_align=True,
                                                                          minimum_number_of_octets=True)
         return non_negative_binary_integer
-    return lowerBound + non_negative_binary_integer
+    return verify_upper_bound(lowerBound + non_negative_binary_integer, upperBound)
+
+
+def verify_upper_bound(value, upperBound):
+    if value > upperBound:
+        raise ValueError("Decoded value %s is greater than upper bound %s" % (value, upperBound))
+    return value
 
 
 def decode_normally_small_non_negative_whole_number(per_bytes, lower_bound):    # 11.6
-- 
2.43.0


From 3a7e6264f428b1bfc5463401e8df2a26b396f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:10 +0000
Subject: [PATCH 45/61] fix: sizes outside the constraint were decoded where
 the length is sent without bounds

---
 asn1PERser/codec/per/decoder.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 6053323..eb36e69 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,7 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, has_constrained_length
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, has_constrained_length, is_within_extension_root
 
 
 __all__ = ['decode']
@@ -229,6 +229,7 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            verify_root_length(bitstring_length_determinant, bitstring.subtypeSpec)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant) if bitstring_length_determinant else ''
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
@@ -308,6 +309,7 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            verify_root_length(octetstring_length_determinant, octetstring.subtypeSpec)
             if octetstring_length_determinant == 0:
                 logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
@@ -442,6 +444,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
+            verify_root_length(length_determinant, sequence_of.subtypeSpec)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -487,6 +490,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
+            verify_root_length(length_determinant, sequence_of.subtypeSpec)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -502,6 +506,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=None)
+            verify_root_length(length_determinant, sequence_of.subtypeSpec)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -674,6 +679,11 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     return verify_upper_bound(lowerBound + non_negative_binary_integer, upperBound)
 
 
+def verify_root_length(length, subtypeSpec):
+    if not is_within_extension_root(length, subtypeSpec):
+        raise ValueError("Decoded length %s is not between %s and %s" % (length, subtypeSpec.lowerEndpoint, subtypeSpec.upperEndpoint))
+
+
 def verify_upper_bound(value, upperBound):
     if value > upperBound:
         raise ValueError("Decoded value %s is greater than upper bound %s" % (value, upperBound))
-- 
2.43.0


From 6a6677fd71d6c0b6b1675fa97d12c5a722193bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 46/61] fix: semi-constrained whole number of 0 octets was
 decoded

---
 asn1PERser/codec/per/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index eb36e69..7922d66 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -629,6 +629,8 @@ def decode_semi_constrained_whole_number_from_field_list(per_bytes, lowerBound):
                                                                  lowerBound=1,
                                                                  upperBound=None)
     logger.debug("semi constranied length determinant: %s", unconstrained_length_determinant)
+    if unconstrained_length_determinant == 0:
+        raise ValueError("Whole number of 0 octets")
     val = per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0))
     logger.debug("semi constrained whole number value: %s", val)
     return lowerBound + val
-- 
2.43.0


From 231e43840eeb64f8289398ca0d0bd777758c3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:15 +0000
Subject: [PATCH 47/61] fix: open type field of 0 octets was decoded as if it
 had bits

---
 asn1PERser/codec/per/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7922d66..2dc3d6c 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -642,6 +642,8 @@ def decode_open_type_field(type, per_bytes):
                                                                  n=per_bytes,
                                                                  lowerBound=None,
                                                                  upperBound=None)
+    if unconstrained_length_determinant == 0:    # 11.1.3
+        raise ValueError("Open type field of 0 octets")
     val = per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
     open_type_value = PerBytes(hex(val)[2:].rstrip("L").zfill(unconstrained_length_determinant * 2))
     decoded = type.create_field_list(open_type_value)
-- 
2.43.0


From 67a9079c0636364f721a9bd07f12a7e6d430f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:28 +0000
Subject: [PATCH 48/61] fix: encode set DEFAULT components in the message it
 was given

---
 asn1PERser/codec/per/encoder.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 70b4c30..c885625 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -241,7 +241,7 @@ def encode_sequence(sequence):    # 19
     for namedType in sequence.rootComponent.namedTypes:
         # a component that is not there must not be instantiated: an instance of a SEQUENCE
         # with no mandatory components already is a value
-        componentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
+        componentType = get_component_or_default(sequence, namedType)
         if namedType.isOptional:    # 19.2
             if componentType is not noValue:
                 optional_default_bit_field_value += '1'
@@ -278,7 +278,7 @@ def encode_sequence(sequence):    # 19
             extension_group_components = defaultdict(list)
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
-                    extensionComponentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
+                    extensionComponentType = get_component_or_default(sequence, namedType)
                     if is_extension_value(namedType, extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
@@ -299,7 +299,7 @@ def encode_sequence(sequence):    # 19
                     previous_extensionGroupComponent = {}
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
-                        extensionComponentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
+                        extensionComponentType = get_component_or_default(sequence, namedType)
                         if is_extension_value(namedType, extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
@@ -323,7 +323,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-                            componentType = sequence.getComponentByName(namedType.name, instantiate=namedType.isDefaulted)
+                            componentType = get_component_or_default(sequence, namedType)
                             group_sequence._componentValues.append(componentType)
                         encoded = encode_open_type_field(group_sequence)
                         encoded_extension_addition_groups.extend(encoded)
@@ -345,6 +345,13 @@ def encode_sequence(sequence):    # 19
     return rootComponentFieldList
 
 
+def get_component_or_default(sequence, namedType):
+    component = sequence.getComponentByName(namedType.name, instantiate=False)    # do not change the message
+    if component is noValue and namedType.isDefaulted:
+        return namedType.asn1Object
+    return component
+
+
 def is_extension_value(namedType, component):
     if namedType.isDefaulted:    # the default value is what is assumed when component is absent
         return namedType.asn1Object != component
-- 
2.43.0


From e9075e2997b261b50ff6f2bffd42e04752340c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 49/61] fix: sizes with a MIN endpoint could not be encoded

---
 asn1PERser/classes/types/constraint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 6d829bc..2beb511 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,7 +45,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(SequenceOfValueSize, self).__init__()
 
@@ -77,7 +77,7 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
+        self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
-- 
2.43.0


From 41bc8cefdcfe978d316e8c8125d3697d54a1eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:46 +0000
Subject: [PATCH 50/61] fix: effective range of an intersection was too wide
 when an operand has gaps or is empty

---
 asn1PERser/classes/types/constraint.py | 34 ++++++++++++++++++++------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 2beb511..2663876 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -6,6 +6,24 @@ MIN = float('-inf')
 MAX = float('inf')
 
 
+def value_ranges(constraint):
+    '''
+    Ranges (lowest, highest) whose union are the values that given constraint allows.
+    '''
+    if isinstance(constraint, (ConstraintOr, ConstraintAnd)):
+        return constraint.valueRanges
+    if isinstance(constraint, SingleValue):
+        return [(value, value) for value in constraint]
+    return [(MIN if constraint.lowerEndpoint is None else constraint.lowerEndpoint,
+             MAX if constraint.upperEndpoint is None else constraint.upperEndpoint)]
+
+
+def effective_endpoints(ranges):
+    lower_endpoint = min([lower for lower, upper in ranges] or [MIN])
+    upper_endpoint = max([upper for lower, upper in ranges] or [MAX])
+    return None if lower_endpoint == MIN else lower_endpoint, None if upper_endpoint == MAX else upper_endpoint
+
+
 class NoConstraint(ConstraintsIntersection):
     def __init__(self):
         self.extensionMarker = False
@@ -89,10 +107,8 @@ class ValueSize(ValueSizeConstraint):
 class ConstraintOr(ConstraintsUnion):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints]
-        upper_endpoints = [constraint.upperEndpoint for constraint in constraints]
-        self.lowerEndpoint = None if None in lower_endpoints else min(lower_endpoints)
-        self.upperEndpoint = None if None in upper_endpoints else max(upper_endpoints)
+        self.valueRanges = [value_range for constraint in constraints for value_range in value_ranges(constraint)]
+        self.lowerEndpoint, self.upperEndpoint = effective_endpoints(self.valueRanges)
         super(ConstraintOr, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
@@ -103,10 +119,12 @@ class ConstraintOr(ConstraintsUnion):
 class ConstraintAnd(ConstraintsIntersection):
     def __init__(self, extensionMarker=False, *constraints):
         self.extensionMarker = extensionMarker
-        lower_endpoints = [constraint.lowerEndpoint for constraint in constraints if constraint.lowerEndpoint is not None]
-        upper_endpoints = [constraint.upperEndpoint for constraint in constraints if constraint.upperEndpoint is not None]
-        self.lowerEndpoint = max(lower_endpoints) if lower_endpoints else None
-        self.upperEndpoint = min(upper_endpoints) if upper_endpoints else None
+        self.valueRanges = [(MIN, MAX)]
+        for constraint in constraints:
+            self.valueRanges = [(max(lower, other_lower), min(upper, other_upper)) for lower, upper in self.valueRanges
+                                for other_lower, other_upper in value_ranges(constraint)
+                                if max(lower, other_lower) <= min(upper, other_upper)]
+        self.lowerEndpoint, self.upperEndpoint = effective_endpoints(self.valueRanges)
         super(ConstraintAnd, self).__init__(*constraints)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From ade3e2ab870c06132824cfe7aec6b1591fef02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:12 +0000
Subject: [PATCH 51/61] fix: extension marker written after SIZE(...) was
 dropped by the parser

---
 asn1PERser/classes/parse_actions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index ae6bb49..9d38e7f 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -179,7 +179,10 @@ def parse_EnumeratedType(toks):
 def parse_Constraint(toks):
     constraint = toks[0]
     if constraint[0] == 'SIZE':
-        return constraint[1]
+        size = constraint[1]
+        if '...' in constraint[2:]:
+            size = size._replace(extensionMarker=True)
+        return size
     constraint = '(' + ' '.join(constraint) + ')'
     parsed = list(Constraint.parseString(constraint))
     ext_mark = False
-- 
2.43.0


From eb62a5ca06161e6cbc0fb9016cf1646482ea720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:51 +0000
Subject: [PATCH 52/61] fix: integers could not be encoded when a constraint
 endpoint is a value reference

---
 asn1PERser/classes/types/constraint.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index 2663876..8cbdd94 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -1,11 +1,19 @@
 from pyasn1.type.constraint import ValueRangeConstraint, ConstraintsIntersection, ConstraintsUnion, SingleValueConstraint, \
     ValueSizeConstraint
+from pyasn1.type.univ import Integer
 
 
 MIN = float('-inf')
 MAX = float('inf')
 
 
+def endpoint_value(endpoint):
+    '''
+    Number that endpoint stands for: endpoint can also be ASN.1 INTEGER value (i.e. given by value reference).
+    '''
+    return int(endpoint) if isinstance(endpoint, Integer) else endpoint
+
+
 def value_ranges(constraint):
     '''
     Ranges (lowest, highest) whose union are the values that given constraint allows.
@@ -62,6 +70,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
     OCTET STRING.
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = endpoint_value(lower_endpoint), endpoint_value(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
@@ -70,6 +79,7 @@ class SequenceOfValueSize(ConstraintsIntersection):
 
 class ValueRange(ValueRangeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = endpoint_value(lower_endpoint), endpoint_value(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
@@ -82,6 +92,7 @@ class ValueRange(ValueRangeConstraint):
 
 class SingleValue(SingleValueConstraint):
     def __init__(self, extension_marker=False, *values):
+        values = [endpoint_value(value) for value in values]
         self.extensionMarker = extension_marker
         self.lowerEndpoint = min(values)
         self.upperEndpoint = max(values)
@@ -94,6 +105,7 @@ class SingleValue(SingleValueConstraint):
 
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
+        lower_endpoint, upper_endpoint = endpoint_value(lower_endpoint), endpoint_value(upper_endpoint)
         self.extensionMarker = extensionMarker
         self.lowerEndpoint = 0 if lower_endpoint == MIN else lower_endpoint
         self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
-- 
2.43.0


From 279de06d0493105616cf8d8875e00ed422d29ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 53/61] fix: component named as an attribute of SequenceType or
 ChoiceType broke the generated class

---
 asn1PERser/classes/templates/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index c481e81..9d0a4f7 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -1,4 +1,5 @@
 from keyword import iskeyword
+from asn1PERser.classes.data.builtin import SequenceType, ChoiceType
 from .creator import template_filler
 
 
@@ -17,4 +18,7 @@ class Template(object):
 
 def python_name(name):
     name = name.replace('-', '_')
-    return name + '_' if iskeyword(name) else name
+    # class of component is defined inside class of SEQUENCE, CHOICE and must not hide their attributes
+    if iskeyword(name) or hasattr(SequenceType, name) or hasattr(ChoiceType, name):
+        return name + '_'
+    return name
-- 
2.43.0


From dc49e3adbdcff6c7dce5a250a62de4112622cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:15 +0000
Subject: [PATCH 54/61] fix: parsing a value definition of a named ENUMERATED
 type did not terminate

---
 asn1PERser/classes/types/builtin/DefinedType.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index bdd0a15..190bfce 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -18,7 +18,7 @@ class DefinedType(DefType):
                                         typereference=python_name(self.typereference))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
-            while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+            while isinstance(defined_type, DefType):
                 defined_type = typereference_to_type[defined_type.typereference]
             defined_type.valuereference = self.valuereference
             defined_type.typereference = self.typereference
-- 
2.43.0


From f106b29496c45af83f419ba7b0bf43bb1f0db48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:32 +0000
Subject: [PATCH 55/61] fix: only a single space was accepted within BIT
 STRING, OCTET STRING, SEQUENCE OF, AUTOMATIC TAGS

---
 asn1PERser/asn_definitions/module_def.py | 4 ++--
 asn1PERser/asn_definitions/type_def.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/asn_definitions/module_def.py b/asn1PERser/asn_definitions/module_def.py
index d0469ec..a924827 100644
--- a/asn1PERser/asn_definitions/module_def.py
+++ b/asn1PERser/asn_definitions/module_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, Group
+from pyparsing import Or, And, Forward, Literal, Regex, ZeroOrMore, Group
 from asn1PERser.classes.parse_actions import parse_ModuleDefinition
 from .assignment_def import TypeAssignment, ValueAssignment
 from .common_def import DefinedValue
@@ -10,7 +10,7 @@ from .lexical_items import COMMA, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, \
 FROM = Literal("FROM")
 EXPLICIT_TAGS = Literal("EXPLICIT TAGS")
 IMPLICIT_TAGS = Literal("IMPLICIT TAGS")
-AUTOMATIC_TAGS = Literal("AUTOMATIC TAGS")
+AUTOMATIC_TAGS = Regex(r"AUTOMATIC\s+TAGS")
 DEFINITIONS = Literal("DEFINITIONS").setResultsName("DEFINITIONS")
 BEGIN = Literal("BEGIN").setResultsName("BEGIN")
 END = Literal("END").setResultsName("END")
diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 488804c..ad9531d 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -1,4 +1,4 @@
-from pyparsing import Or, And, Forward, Literal, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
+from pyparsing import Or, And, Forward, Literal, Regex, ZeroOrMore, OneOrMore, Optional, nestedExpr, Group
 from asn1PERser.classes.parse_actions import parse_SequenceType, parse_ComponentType, \
     parse_ConstrainedType, parse_DateType, parse_TypeWithConstraint, \
     parse_RealType, parse_ChoiceType, parse_AlternativeTypeList, \
@@ -24,10 +24,10 @@ INTEGER = Literal("INTEGER")
 OPTIONAL = Literal("OPTIONAL")
 DEFAULT = Literal("DEFAULT")
 COMPONENTS_OF = Literal("COMPONENTS OF")
-BIT_STRING = Literal("BIT STRING")
+BIT_STRING = Regex(r"BIT\s+STRING")
 ENUMERATED = Literal("ENUMERATED")
 SEQUENCE = Literal("SEQUENCE")
-SEQUENCE_OF = Literal("SEQUENCE OF")
+SEQUENCE_OF = Regex(r"SEQUENCE\s+OF")
 CHOICE = Literal("CHOICE")
 SET = Literal("SET")
 OF = Literal("OF")
@@ -163,7 +163,7 @@ BitStringType = Or([
 
 
 # 23.1
-OctetStringType = Literal("OCTET STRING").setParseAction(parse_OctetStringType)
+OctetStringType = Regex(r"OCTET\s+STRING").setParseAction(parse_OctetStringType)
 
 
 # 24.1
-- 
2.43.0


From c491d087cca0e08801f054a13f179a46bcf84af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:12 +0000
Subject: [PATCH 56/61] fix: extensible INTEGER (MIN..n, ...): decoder took
 numbers above n as values of the root

---
 asn1PERser/codec/per/decoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 2dc3d6c..7095013 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -99,7 +99,10 @@ def decode_integer(integer, per_bytes):
             return integer.__class__(decode_semi_constrained_whole_number_from_field_list(per_bytes=per_bytes,
                                                                                           lowerBound=integer.subtypeSpec.lowerEndpoint))
         elif not is_constrained_whole_number(integer):
-            return integer.__class__(decode_unconstrained_whole_number(per_bytes))
+            unconstrained_whole_number = decode_unconstrained_whole_number(per_bytes)
+            if integer.subtypeSpec.upperEndpoint is not None:
+                verify_upper_bound(unconstrained_whole_number, integer.subtypeSpec.upperEndpoint)
+            return integer.__class__(unconstrained_whole_number)
         else:
             constrained_whole_number = decode_constrained_whole_number_from_field_list(per_bytes=per_bytes,
                                                                                        lowerEndpoint=integer.subtypeSpec.lowerEndpoint,
-- 
2.43.0


From 81d3acadda0790e519e2b1a6120c2a2f4c07e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:04 +0000
Subject: [PATCH 57/61] fix: parsing a DEFAULT of a type of which a value is
 defined by another name of it did not terminate

---
 asn1PERser/classes/types/builtin/DefinedType.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index 190bfce..29a848b 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -20,13 +20,10 @@ class DefinedType(DefType):
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
             while isinstance(defined_type, DefType):
                 defined_type = typereference_to_type[defined_type.typereference]
-            defined_type.valuereference = self.valuereference
-            defined_type.typereference = self.typereference
-            defined_type.Value = self.Value
             return template_filler.fill(asn_type='simple_value', type_or_value='value',
                                         valuereference=self.valuereference,
                                         class_type=python_name(self.typereference),
-                                        value=defined_type.Value)
+                                        value=defined_type.parse_value(self.Value))
         if self.Value:
             defined_type.Value = self.Value
             return defined_type.fill_template()
-- 
2.43.0


From d90b583d5d412e2509c566dc2be7c24698a78de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:29 +0000
Subject: [PATCH 58/61] fix: reference to a value of an ENUMERATED type was
 taken for the name of an item

---
 asn1PERser/classes/types/builtin/EnumeratedType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index 756ef57..5d73f62 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -1,6 +1,6 @@
 from ..type import SimpleType
 from asn1PERser.classes.templates.creator import template_filler
-from asn1PERser.classes.module import already_filled_template
+from asn1PERser.classes.module import already_filled_template, constants
 
 
 class EnumeratedType(SimpleType):
@@ -66,6 +66,8 @@ class EnumeratedType(SimpleType):
             self._EnumerationItems.append({EnumerationItem[1]: EnumerationItem[0]})
 
     def parse_value(self, value):
+        if value not in self.canonical_enumeration_items() and value.replace('-', '_') in constants:
+            return value.replace('-', '_')    # value reference
         return "'" + value + "'"
 
     def __repr__(self):
-- 
2.43.0


From 8de45fe03971da908e4630233fd0dc9a97d9f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:15 +0000
Subject: [PATCH 59/61] fix: values named as Python keywords generated invalid
 code

---
 asn1PERser/classes/module.py                        | 6 +++---
 asn1PERser/classes/parse_actions.py                 | 3 ++-
 asn1PERser/classes/templates/__init__.py            | 5 +++++
 asn1PERser/classes/types/builtin/BitStringType.py   | 3 ++-
 asn1PERser/classes/types/builtin/BooleanType.py     | 3 ++-
 asn1PERser/classes/types/builtin/EnumeratedType.py  | 5 +++--
 asn1PERser/classes/types/builtin/IntegerType.py     | 3 ++-
 asn1PERser/classes/types/builtin/OctetStringType.py | 3 ++-
 asn1PERser/classes/types/builtin/SequenceType.py    | 5 +++--
 asn1PERser/classes/types/type.py                    | 4 ++--
 10 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 409dd89..e1475fe 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -1,7 +1,7 @@
 import os
 import re
 import logging
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_value_name
 from asn1PERser.classes.types.type import SimpleType, ComponentType, DefType
 
 
@@ -65,7 +65,7 @@ class ModuleDefinition(Template):
         names = {}
         for assignment in assignments:
             name = assignment.valuereference or assignment.identifier or assignment.typereference
-            names[name.replace('-', '_')] = assignment
+            names[python_value_name(name)] = assignment
         visited = set()
         new_order = []
 
@@ -85,7 +85,7 @@ class ModuleDefinition(Template):
     def _get_references(self, type_):
         references = [type_.typereference, type_.constraint.lowerEndpoint, type_.constraint.upperEndpoint,
                       type_.Value, type_.default]
-        references = [str(reference).replace('-', '_') for reference in references]
+        references = [python_value_name(str(reference)) for reference in references]
         if isinstance(type_, ComponentType):
             for subcomponent in type_:
                 if not isinstance(subcomponent, str):  # elipsis: ...
diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 9d38e7f..d80bc2c 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -4,6 +4,7 @@ from asn1PERser.classes.types.builtin import SequenceType, DefinedType, \
     VisibleString, NumericString, IntegerType, DateType, RealType, BooleanType, \
     ChoiceType, EnumeratedType, IA5String, UTF8String, OctetStringType, \
     BitStringType, SequenceOfType, builtin_types
+from asn1PERser.classes.templates import python_value_name
 from asn1PERser.classes.module import ModuleDefinition, typereference_to_type
 from asn1PERser.asn_definitions.constraint_def import Constraint
 
@@ -195,5 +196,5 @@ def parse_Constraint(toks):
 
 def endpoint_to_python(endpoint):
     if endpoint[0].isalpha():    # value reference
-        return endpoint.replace('-', '_')
+        return python_value_name(endpoint)
     return endpoint
diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index 9d0a4f7..3b8aa3c 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -16,6 +16,11 @@ class Template(object):
         return python_name(self.typereference if self.typereference else self.identifier)
 
 
+def python_value_name(name):
+    name = name.replace('-', '_')
+    return name + '_' if iskeyword(name) else name
+
+
 def python_name(name):
     name = name.replace('-', '_')
     # class of component is defined inside class of SEQUENCE, CHOICE and must not hide their attributes
diff --git a/asn1PERser/classes/types/builtin/BitStringType.py b/asn1PERser/classes/types/builtin/BitStringType.py
index 9e37eb1..2db0ab6 100644
--- a/asn1PERser/classes/types/builtin/BitStringType.py
+++ b/asn1PERser/classes/types/builtin/BitStringType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_value_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -27,7 +28,7 @@ class BitStringType(SimpleType):
 
     def parse_value(self, value):
         if not value.startswith("'"):    # value reference
-            return value.replace('-', '_')
+            return python_value_name(value)
         if value.endswith('B'):
             return "binValue={}".format(''.join(value[:-1].split()))
         if value.endswith('H'):
diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 2081c6a..f5b441f 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_value_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -27,4 +28,4 @@ class BooleanType(SimpleType):
             return True
         if value == 'FALSE':
             return False
-        return value.replace('-', '_')    # value reference
+        return python_value_name(value)    # value reference
diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index 5d73f62..9b3a759 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_value_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template, constants
 
@@ -66,8 +67,8 @@ class EnumeratedType(SimpleType):
             self._EnumerationItems.append({EnumerationItem[1]: EnumerationItem[0]})
 
     def parse_value(self, value):
-        if value not in self.canonical_enumeration_items() and value.replace('-', '_') in constants:
-            return value.replace('-', '_')    # value reference
+        if value not in self.canonical_enumeration_items() and python_value_name(value) in constants:
+            return python_value_name(value)    # value reference
         return "'" + value + "'"
 
     def __repr__(self):
diff --git a/asn1PERser/classes/types/builtin/IntegerType.py b/asn1PERser/classes/types/builtin/IntegerType.py
index 993beda..b6e4bb2 100644
--- a/asn1PERser/classes/types/builtin/IntegerType.py
+++ b/asn1PERser/classes/types/builtin/IntegerType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_value_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -27,5 +28,5 @@ class IntegerType(SimpleType):
 
     def parse_value(self, value):
         if value[0].isalpha():    # value reference
-            return value.replace('-', '_')
+            return python_value_name(value)
         return value
diff --git a/asn1PERser/classes/types/builtin/OctetStringType.py b/asn1PERser/classes/types/builtin/OctetStringType.py
index 98ddc0a..a52af42 100644
--- a/asn1PERser/classes/types/builtin/OctetStringType.py
+++ b/asn1PERser/classes/types/builtin/OctetStringType.py
@@ -1,4 +1,5 @@
 from ..type import SimpleType
+from asn1PERser.classes.templates import python_value_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template
 
@@ -27,7 +28,7 @@ class OctetStringType(SimpleType):
 
     def parse_value(self, value):
         if not value.startswith("'"):    # value reference
-            return value.replace('-', '_')
+            return python_value_name(value)
         if value.endswith('B'):
             return "binValue={}".format(''.join(value[:-1].split()))
         if value.endswith('H'):
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 0048882..c245732 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -1,4 +1,5 @@
 from ..type import ComponentType
+from asn1PERser.classes.templates import python_value_name
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants
 
@@ -96,10 +97,10 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            constant = constants.get(str(ComponentType.default).replace('-', '_'))
+            constant = constants.get(python_value_name(str(ComponentType.default)))
             if constant is not None and constant.typereference == ComponentType.typereference:
                 named_type_properties['is_constant'] = True;
-                named_type_properties['default_value'] = str(ComponentType.default).replace('-', '_')
+                named_type_properties['default_value'] = python_value_name(str(ComponentType.default))
             else:
                 if ComponentType.typereference in typereference_to_type.keys():
                     defined_type = typereference_to_type[ComponentType.typereference]
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 1d196af..c8a28b8 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -1,5 +1,5 @@
 from pyasn1.type.namedtype import NamedTypes
-from asn1PERser.classes.templates import Template
+from asn1PERser.classes.templates import Template, python_value_name
 from asn1PERser.classes.types.constraint import NoConstraint
 
 
@@ -46,7 +46,7 @@ class Type(Template):
 
     @valuereference.setter
     def valuereference(self, valuereference):
-        self._valuereference = valuereference.replace('-', '_')
+        self._valuereference = python_value_name(valuereference)
 
     @property
     def Value(self):
-- 
2.43.0


From 5933aec196612a02c4ad554618e13a9eb1d74e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:19 +0000
Subject: [PATCH 60/61] fix: component named as a value of the module hid that
 value from DEFAULT

---
 asn1PERser/classes/module.py             | 4 +++-
 asn1PERser/classes/templates/__init__.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index e1475fe..0160fb6 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -1,7 +1,7 @@
 import os
 import re
 import logging
-from asn1PERser.classes.templates import Template, python_value_name
+from asn1PERser.classes.templates import Template, python_value_name, valuereferences
 from asn1PERser.classes.types.type import SimpleType, ComponentType, DefType
 
 
@@ -42,6 +42,8 @@ class ModuleDefinition(Template):
         simple_type_assignments = []
         component_type_assignments = []
         type_type_assignments = []
+        valuereferences.clear()
+        valuereferences.update(assignment.valuereference for assignment in AssignmentList if assignment.valuereference)
         for assignment in AssignmentList:
             if isinstance(assignment, SimpleType):
                 if assignment.valuereference:
diff --git a/asn1PERser/classes/templates/__init__.py b/asn1PERser/classes/templates/__init__.py
index 3b8aa3c..580bf34 100644
--- a/asn1PERser/classes/templates/__init__.py
+++ b/asn1PERser/classes/templates/__init__.py
@@ -2,6 +2,8 @@ from keyword import iskeyword
 from asn1PERser.classes.data.builtin import SequenceType, ChoiceType
 from .creator import template_filler
 
+valuereferences = set()
+
 
 class Template(object):
     def fill_template(self):
@@ -24,6 +26,7 @@ def python_value_name(name):
 def python_name(name):
     name = name.replace('-', '_')
     # class of component is defined inside class of SEQUENCE, CHOICE and must not hide their attributes
-    if iskeyword(name) or hasattr(SequenceType, name) or hasattr(ChoiceType, name):
+    # nor values, which DEFAULT of other components may refer to
+    if iskeyword(name) or name in valuereferences or hasattr(SequenceType, name) or hasattr(ChoiceType, name):
         return name + '_'
     return name
-- 
2.43.0


From 940a0215aab23354259cf8c99fa6ff34ffb66e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:34 +0000
Subject: [PATCH 61/61] fix: number of elements in a gap of a combined size
 constraint of SEQUENCE OF was accepted

---
 asn1PERser/codec/per/decoder.py | 10 +++++++++-
 asn1PERser/codec/per/encoder.py |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7095013..1102588 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -3,7 +3,8 @@ import logging
 import codecs
 from collections import deque
 from .encoder import bit_field_size, get_bit_field_size, integer_range, get_range_octet_len, \
-    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, has_constrained_length, is_within_extension_root
+    is_constrained_whole_number, is_semi_constrained_whole_number, is_constant, has_constrained_length, is_within_extension_root, \
+    is_within_combined_ranges
 
 
 __all__ = ['decode']
@@ -494,6 +495,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             verify_root_length(length_determinant, sequence_of.subtypeSpec)
+            verify_combined_ranges(length_determinant, sequence_of.subtypeSpec)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -510,6 +512,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=None)
             verify_root_length(length_determinant, sequence_of.subtypeSpec)
+            verify_combined_ranges(length_determinant, sequence_of.subtypeSpec)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -691,6 +694,11 @@ def verify_root_length(length, subtypeSpec):
         raise ValueError("Decoded length %s is not between %s and %s" % (length, subtypeSpec.lowerEndpoint, subtypeSpec.upperEndpoint))
 
 
+def verify_combined_ranges(length, subtypeSpec):
+    if not is_within_combined_ranges(length, subtypeSpec):
+        raise ValueError("Decoded length %s is not in any of ranges %s" % (length, subtypeSpec.valueRanges))
+
+
 def verify_upper_bound(value, upperBound):
     if value > upperBound:
         raise ValueError("Decoded value %s is greater than upper bound %s" % (value, upperBound))
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index c885625..fc80b31 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -381,6 +381,8 @@ def encode_sequence_of(sequence_of):    # 20
         raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
     elif sequence_of.subtypeSpec.upperEndpoint is not None and (n > sequence_of.subtypeSpec.upperEndpoint):
         raise InvalidComponentIndexIntoStructuredType('invalid index: {}'.format(sequence_of.subtypeSpec.upperEndpoint + 1))
+    elif not is_within_combined_ranges(n, sequence_of.subtypeSpec):
+        raise SizeConstrainViolated("Number of SET OF/SEQUENCE OF {} components = {}".format(sequence_of.__class__, n))
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
@@ -674,6 +676,11 @@ def is_within_extension_root(n, subtypeSpec):
             (subtypeSpec.upperEndpoint is None or n <= subtypeSpec.upperEndpoint))
 
 
+def is_within_combined_ranges(n, subtypeSpec):
+    value_ranges = getattr(subtypeSpec, 'valueRanges', None)    # of ConstraintOr, ConstraintAnd
+    return value_ranges is None or any(lower <= n <= upper for lower, upper in value_ranges)
+
+
 def has_constrained_length(subtypeSpec):
     return subtypeSpec.upperEndpoint is not None and subtypeSpec.upperEndpoint < 65536
 
-- 
2.43.0

