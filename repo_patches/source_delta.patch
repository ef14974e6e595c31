From a9c2445c1338bd3ab9eb53fbb1550bef6b6473e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 01/12] fix: huge length words raise a decoding error instead
 of OverflowError

A bytes/string length word of 2**63 - 32 or more made the stream's read()
raise OverflowError.  Ask for at most what is left in the stream, so that strict
decoding reports InsufficientDataBytes.
---
 eth_abi/decoding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..b2e73dd 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -596,7 +596,10 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        # The length word may exceed the sizes that the stream is able to read, so
+        # never ask for more than is left
+        bytes_left = max(0, len(stream.getbuffer()) - stream.tell())
+        data = stream.read(min(padded_length, bytes_left))
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 767d5805a3801639daf03a0ce42f60b142088d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 02/12] fix: reject numbers that fixed types cannot encode with
 EncodingTypeError

Fractions and complex numbers passed the type check of the fixed encoders and
then failed with a TypeError from decimal arithmetic, in encode() and in
is_encodable().
---
 eth_abi/encoding.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..22012a5 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -18,7 +18,6 @@ from eth_utils import (
     is_bytes,
     is_integer,
     is_list_like,
-    is_number,
     is_text,
     to_canonical_address,
 )
@@ -334,7 +333,7 @@ class BaseFixedEncoder(NumberEncoder):
 
     @staticmethod
     def type_check_fn(value):
-        return is_number(value) and not isinstance(value, float)
+        return isinstance(value, (int, decimal.Decimal))
 
     @staticmethod
     def illegal_value_fn(value):
-- 
2.43.0


From e22c4ccd586d3a3570981e46300fb0053de11d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 03/12] fix: do not let tiny fixed-point residues underflow to
 zero

With the default exponent range, a value such as Decimal('1E-2000000') had a
residue that underflowed to zero, so it was accepted and encoded as 0.
---
 eth_abi/utils/numeric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/numeric.py b/eth_abi/utils/numeric.py
index b44e4dc..df53578 100644
--- a/eth_abi/utils/numeric.py
+++ b/eth_abi/utils/numeric.py
@@ -5,7 +5,12 @@ import decimal
 
 ABI_DECIMAL_PREC = 999
 
-abi_decimal_context = decimal.Context(prec=ABI_DECIMAL_PREC)
+abi_decimal_context = decimal.Context(
+    prec=ABI_DECIMAL_PREC,
+    # Widest exponent range, so that no residue can underflow to zero
+    Emin=decimal.MIN_EMIN,
+    Emax=decimal.MAX_EMAX,
+)
 
 ZERO = decimal.Decimal(0)
 TEN = decimal.Decimal(10)
-- 
2.43.0


From 534db10ab1dcae8cb1b8175dc907e1690568c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 04/12] fix: report unencodable huge integers as encoding
 errors

The error message for an integer of more than 4300 digits could not be built
because repr() refuses to convert it, so encode() and is_encodable() raised a
bare ValueError.
---
 eth_abi/utils/string.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/string.py b/eth_abi/utils/string.py
index abd76b8..e5e2d6a 100644
--- a/eth_abi/utils/string.py
+++ b/eth_abi/utils/string.py
@@ -8,7 +8,11 @@ def abbr(value: Any, limit: int = 79) -> str:
     Converts a value into its string representation and abbreviates that
     representation based on the given length `limit` if necessary.
     """
-    rep = repr(value)
+    try:
+        rep = repr(value)
+    except ValueError:
+        # e.g. integers with more digits than python is willing to convert
+        rep = object.__repr__(value)
 
     if len(rep) > limit:
         if limit < 3:
-- 
2.43.0


From 014e9f83c5bbbc81fd632c74f82497a72a766a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 05/12] fix: text that utf-8 cannot represent is not encodable

is_encodable('string', '\\ud800') was True although encode() fails on it, and
encode() raised UnicodeEncodeError instead of an EncodingError.
---
 eth_abi/encoding.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 22012a5..6c73381 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -543,6 +543,15 @@ class TextStringEncoder(BaseEncoder):
         if not is_text(value):
             cls.invalidate_value(value)
 
+        try:
+            codecs.encode(value, "utf8")
+        except UnicodeEncodeError:
+            cls.invalidate_value(
+                value,
+                exc=IllegalValue,
+                msg="text cannot be encoded as utf-8",
+            )
+
     @classmethod
     def encode(cls, value):
         cls.validate_value(value)
-- 
2.43.0


From f501e7b5f3544e5eb3396452a234df82af2631d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 06/12] fix: support the byte alias outside of compound types

'byte' is documented as an alias of 'bytes1' and worked as an array item or a
tuple component, but no registration matched it on its own.
---
 eth_abi/registry.py          | 11 +++++++++++
 eth_abi/tools/_strategies.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..0ed7e5f 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -555,6 +555,12 @@ registry.register(
     decoding.BytesDecoder,
     label="function",
 )
+registry.register(
+    BaseEquals("byte"),
+    encoding.BytesEncoder,
+    decoding.BytesDecoder,
+    label="byte",
+)
 registry.register(
     BaseEquals("string"),
     encoding.TextStringEncoder,
@@ -621,6 +627,11 @@ registry_packed.register_encoder(
     encoding.PackedBytesEncoder,
     label="function",
 )
+registry_packed.register_encoder(
+    BaseEquals("byte"),
+    encoding.PackedBytesEncoder,
+    label="byte",
+)
 registry_packed.register_encoder(
     BaseEquals("string"),
     encoding.PackedTextStringEncoder,
diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index 201ff74..fb66b6e 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -218,6 +218,11 @@ strategy_registry.register_strategy(
     get_bytes_strategy,
     label="function",
 )
+strategy_registry.register_strategy(
+    BaseEquals("byte", with_sub=False),
+    get_bytes_strategy,
+    label="byte",
+)
 strategy_registry.register_strategy(
     BaseEquals("string", with_sub=False),
     string_strategy,
-- 
2.43.0


From 17d3c1a23236ca08e5f164ea71fa14cde12974c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 07/12] fix: reject bool types with a suffix

'bool8' and the like are not ABI types but were accepted as 'bool'.
---
 eth_abi/grammar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index fe24044..16228ac 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -395,6 +395,11 @@ class BasicType(ABIType):
             if sub is not None:
                 self.invalidate("address cannot have suffix")
 
+        # Check validity of bool type
+        elif base == "bool":
+            if sub is not None:
+                self.invalidate("bool cannot have suffix")
+
 
 TYPE_ALIASES = {
     "int": "int256",
-- 
2.43.0


From 56d94ca660990525f4e9487ff6830f0d7474e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 08/12] fix: unregistering by an equal predicate also removes
 its label

Entries are removed by equality but their label was looked up by identity, so
unregistering with an equal predicate left a dangling label which could neither
be reused nor removed.
---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 0ed7e5f..b56d95a 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From 650158060666f1b73c059d5d1c31f00f95d95c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 09/12] fix: do not leak the strict flag through decoder
 instances

A decoder registered as an instance, e.g. StringDecoder(handle_string_errors=..),
was modified in place, so one decode(..., strict=False) made later strict calls
for the same type lenient.
---
 eth_abi/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index b56d95a..c4c7e20 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -478,6 +478,9 @@ class ABIRegistry(Copyable, BaseRegistry):
             # Set a transient flag each time a call is made to ``get_decoder()``.
             # Only dynamic decoders should be allowed these looser constraints. All
             # other decoders should keep the default value of ``True``.
+            if getattr(decoder, "strict", True) is not strict:
+                # A decoder that was registered as an instance is shared by all calls
+                decoder = copy.copy(decoder)
             decoder.strict = strict
 
         return decoder
-- 
2.43.0


From 7cda8fc6b1dec6e5988f7033f5226dff6d68faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 10/12] fix: allow arrays of types that are registered with
 callables

Tuples already supported coders that are plain callables; arrays of such types
failed with AttributeError when encoding and decoding.
---
 eth_abi/decoding.py | 4 ++--
 eth_abi/encoding.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index b2e73dd..6244f13 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -272,7 +272,7 @@ class BaseArrayDecoder(BaseDecoder):
         super().__init__(**kwargs)
 
         # Use a head-tail decoder to decode dynamic elements
-        if self.item_decoder.is_dynamic:
+        if getattr(self.item_decoder, "is_dynamic", False):
             self.item_decoder = HeadTailDecoder(
                 tail_decoder=self.item_decoder,
             )
@@ -329,7 +329,7 @@ class SizedArrayDecoder(BaseArrayDecoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_decoder.is_dynamic
+        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
     @to_tuple
     def decode(self, stream):
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 6c73381..2b56232 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -595,7 +595,10 @@ class BaseArrayEncoder(BaseEncoder):
             )
 
         for item in value:
-            self.item_encoder.validate_value(item)
+            try:
+                self.item_encoder.validate_value(item)
+            except AttributeError:
+                self.item_encoder(item)
 
     def encode_elements(self, value):
         self.validate_value(value)
@@ -671,7 +674,7 @@ class SizedArrayEncoder(BaseArrayEncoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_encoder.is_dynamic
+        self.is_dynamic = getattr(self.item_encoder, "is_dynamic", False)
 
     def validate(self):
         super().validate()
-- 
2.43.0


From 416b95851b5c9325f3006372ebf974880e529445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:04 +0000
Subject: [PATCH 11/12] fix: reject tuple pointers into head sections with wide
 static components

The end of the head section was computed as one word per component (or per
array item), so with static tuples or nested static arrays among the components
a pointer into the head itself was accepted.
---
 eth_abi/decoding.py | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 6244f13..bdc3dd6 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -193,31 +193,29 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
-        end_of_offsets = current_location + 32 * len_of_head
         total_stream_length = len(stream.getbuffer())
+        pointers = []
         for decoder in self.decoders:
             if isinstance(decoder, HeadTailDecoder):
                 # the next 32 bytes are a pointer
-                offset = decode_uint_256(stream)
-                indicated_idx = current_location + offset
-                if (
-                    indicated_idx < end_of_offsets
-                    or indicated_idx >= total_stream_length
-                ):
-                    # the pointer is indicating its data is located either within the
-                    # offsets section of the stream or beyond the end of the stream,
-                    # both of which are invalid
-                    raise InvalidPointer(
-                        "Invalid pointer in tuple at location "
-                        f"{stream.tell() - 32} in payload"
-                    )
+                location = stream.tell()
+                pointers.append((location, decode_uint_256(stream)))
             else:
                 # the next 32 bytes are not a pointer, so progress the stream per
                 # the decoder
                 decoder(stream)
+        # static components may be wider than 32 bytes, so only now is it known where
+        # the offsets section ends
+        end_of_offsets = stream.tell()
+        for location, offset in pointers:
+            indicated_idx = current_location + offset
+            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
+                # the pointer is indicating its data is located either within the
+                # offsets section of the stream or beyond the end of the stream,
+                # both of which are invalid
+                raise InvalidPointer(
+                    f"Invalid pointer in tuple at location {location} in payload"
+                )
         # return the stream to its original location for actual decoding
         stream.seek(current_location)
 
-- 
2.43.0


From f46d4b3b11dbe9f6ee5688a903e54cd3c1b49aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 12/12] fix: report multiple matching registrations for every
 type string

_get_registration recognised the no-match error by looking for 'No matching'
in its message, which also contains the type string: with two registrations
matching a string that contains these words the parse error hid the
MultipleEntriesFound.
---
 eth_abi/registry.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index c4c7e20..9938953 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -328,11 +328,10 @@ class BaseRegistry:
     def _get_registration(self, mapping, type_str):
         try:
             value = mapping.find(type_str)
-        except ValueError as e:
-            if "No matching" in e.args[0]:
-                # If no matches found, attempt to parse in case lack of matches
-                # was due to unparsability
-                grammar.parse(type_str)
+        except NoEntriesFound:
+            # If no matches found, attempt to parse in case lack of matches
+            # was due to unparsability
+            grammar.parse(type_str)
 
             raise
 
-- 
2.43.0

