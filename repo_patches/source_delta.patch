From dd7df057d5494d551d2909a558486ecf05dd58a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:39 +0000
Subject: [PATCH 01/29] fix: keep leading zero octets when decoding
 size-constrained OCTET STRING

hex() drops leading zeros, so a variable-size OCTET STRING such as 00AB was
decoded as AB (or rejected by the size constraint).
---
 asn1PERser/codec/per/decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 0024a67..436350a 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -290,7 +290,7 @@ def decode_octetstring(octetstring, per_bytes):
                 logger.info("%s: decoding finished.", octetstring.__class__.__name__)
                 return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0), octet_align=True)
-            octetstring_val = hex(octetstring_val)[2:].rstrip("L")
+            octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
             logger.info("%s: decoding finished.", octetstring.__class__.__name__)
             return octetstring.__class__(octetstring.__class__.fromHexString(octetstring_val))
-- 
2.43.0


From 4e5f1b7d82b4a543aee9d73be6079d367cc7a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 02/29] fix: encode and decode zero-length BIT STRING / OCTET
 STRING values correctly

An empty BIT STRING was sent as one zero bit, an empty size-constrained string
forced octet alignment on the encoder side only, and the extended BIT STRING
branch of the decoder aligned after the value.
---
 asn1PERser/codec/per/decoder.py | 24 +++++++++++++++---------
 asn1PERser/codec/per/encoder.py |  4 ++--
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 436350a..6e08bb6 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -68,10 +68,7 @@ class PerBytes(object):
 def decode(per_stream, asn1Spec, **kwargs):
     per_bytes = PerBytes(binascii.hexlify(per_stream))
     logger.debug("Decoding of bytes: '%s' started. Binary representation: '%s'", codecs.encode(per_stream, "hex_codec"), per_bytes.binary_string)
-    decoded = asn1Spec.create_field_list(per_bytes)
-    if decoded == '':
-        return asn1Spec.__class__('')
-    return decoded
+    return asn1Spec.create_field_list(per_bytes)
 
 
 def decode_boolean(boolean, per_bytes):    # 12
@@ -172,16 +169,15 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            if bitstring_length_determinant == 0:
+                return decoded_empty_bitstring(bitstring)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant))
-            per_bytes.next(size=bit_field_size(octets=0, bits=0), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
             logger.info("%s: decoding finished.", bitstring.__class__.__name__)
             return bitstring.__class__(bitstring_val)
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
-        logger.info("%s: upperEndpoint is 0 so value is empty string: ''", bitstring.__class__.__name__)
-        logger.info("%s: decoding finished.", bitstring.__class__.__name__)
-        return ''
+        return decoded_empty_bitstring(bitstring)
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", bitstring.__class__.__name__, bitstring.subtypeSpec.lowerEndpoint)
         if bitstring.subtypeSpec.lowerEndpoint <= 16:    # 16.9
@@ -209,6 +205,8 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=bitstring.subtypeSpec.lowerEndpoint,
                                                                      upperBound=bitstring.subtypeSpec.upperEndpoint)
+            if bitstring_length_determinant == 0:
+                return decoded_empty_bitstring(bitstring)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
@@ -222,6 +220,8 @@ def decode_bitstring(bitstring, per_bytes):
                                                                      n=per_bytes,
                                                                      lowerBound=0,
                                                                      upperBound=None)
+            if bitstring_length_determinant == 0:
+                return decoded_empty_bitstring(bitstring)
             bitstring_val = per_bytes.next(size=bit_field_size(octets=0, bits=bitstring_length_determinant), octet_align=True)
             bitstring_val = bin(bitstring_val)[2:].zfill(bitstring_length_determinant)
             logger.info("%s: value: %s", bitstring.__class__.__name__, bitstring_val)
@@ -229,6 +229,12 @@ def decode_bitstring(bitstring, per_bytes):
             return bitstring.__class__(bitstring_val)
 
 
+def decoded_empty_bitstring(bitstring):
+    logger.info("%s: length is 0 so value is empty string: ''", bitstring.__class__.__name__)
+    logger.info("%s: decoding finished.", bitstring.__class__.__name__)
+    return bitstring.__class__('')
+
+
 def decode_octetstring(octetstring, per_bytes):
     logger.info("Decoding octetstring: %s", octetstring.__class__.__name__)
     if octetstring.subtypeSpec.extensionMarker:  # 17.3
@@ -256,7 +262,7 @@ def decode_octetstring(octetstring, per_bytes):
     if octetstring.subtypeSpec.upperEndpoint == 0:  # 17.5
         logger.info("%s: upperEndpoint is 0 so value is empty string: ''", octetstring.__class__.__name__)
         logger.info("%s: decoding finished.", octetstring.__class__.__name__)
-        return ''
+        return octetstring.__class__('')
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         logger.info("%s: lowerEndpoint == upperEndpoint == %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint)
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 7159457..fc78fa8 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -40,7 +40,7 @@ def encode(asn1Spec):
 def _produce_complete_encoding(field_list):    # 11.1
     complete_encoding = ''
     for field in field_list:
-        if field.octet_align:
+        if field.octet_align and field.value:    # 11.9.3.3 - nothing (no padding either) is added for an empty field
             if len(complete_encoding) % 8 != 0:
                 complete_encoding += ''.zfill(abs(len(complete_encoding) % 8 - 8))
             complete_encoding += field.value
@@ -122,7 +122,7 @@ def encode_bitstring(bitstring):    # 16
     if bitstring.namedValues:    # 16.2, 16.3
         raise NotImplemented
 
-    bitstring_value = bitstring.asBinary()
+    bitstring_value = bitstring.asBinary() if len(bitstring) else ''    # asBinary() of empty value is '0'
     bitstring_len = len(bitstring_value)
     extension_bit_field = None
     if bitstring.subtypeSpec.extensionMarker:    # 16.6
-- 
2.43.0


From e65009e6e44920f1b1ee1a38ff152e164e506e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 03/29] fix: decode empty unconstrained OCTET STRING as empty,
 not as one zero octet

---
 asn1PERser/codec/per/decoder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 6e08bb6..dcb8b3e 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -307,6 +307,10 @@ def decode_octetstring(octetstring, per_bytes):
                                                                        n=per_bytes,
                                                                        lowerBound=0,
                                                                        upperBound=None)
+            if octetstring_length_determinant == 0:
+                logger.info("%s: length determinant is 0 so value is empty string: ''", octetstring.__class__.__name__)
+                logger.info("%s: decoding finished.", octetstring.__class__.__name__)
+                return octetstring.__class__(octetstring.__class__.fromHexString(''))
             octetstring_val = per_bytes.next(size=bit_field_size(octets=octetstring_length_determinant, bits=0))
             octetstring_val = hex(octetstring_val)[2:].rstrip("L").zfill(octetstring_length_determinant * 2)
             logger.info("%s: value: %s", octetstring.__class__.__name__, octetstring_val)
-- 
2.43.0


From 7774c5cd2b2509bd874df54d744f8da0976917fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 04/29] fix: decode empty SEQUENCE OF as an empty value

---
 asn1PERser/codec/per/decoder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index dcb8b3e..b29dc4f 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -426,6 +426,7 @@ def decode_sequence(sequence, per_bytes):
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
     new_seq_of = sequence_of.__class__()
+    new_seq_of.clear()    # empty list is a value, schema object is not
     component_type = sequence_of.getComponentType()
     if sequence_of.subtypeSpec.extensionMarker:  # 20.4
         logger.info("%s: extension marker should be present", sequence_of.__class__.__name__)
-- 
2.43.0


From 5b658ebcbe12be15a7f833b1489191affb391c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:11 +0000
Subject: [PATCH 05/29] fix: length of fixed-size extensible SEQUENCE OF is its
 bound, not 0

---
 asn1PERser/codec/per/decoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index b29dc4f..7d5599a 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -643,8 +643,8 @@ def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     range = integer_range(lowerBound, upperBound)
     field_size = get_bit_field_size(range)
     logger.debug("constrained whole number: range: %s; size: %s", range, field_size)
-    if range == 1:
-        return 0
+    if range == 1:    # 11.5.4
+        return lowerBound
     elif range <= 255:
         non_negative_binary_integer = decode_non_negative_binary_integer(per_bytes, field_size, octet_align=False)
     elif range == 256:
-- 
2.43.0


From 0db6892e83e17e710cbcb0926960dadc7e1ab5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 06/29] fix: compare BIT STRING with its DEFAULT including
 length, not as an integer

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index fc78fa8..47ef9d6 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -254,7 +254,7 @@ def encode_sequence(sequence):    # 19
             # if isDefaulted, default value must have been initiated when defining asn1 Schema,
             # if default value is different than value passed when filling schema, assume component
             # is present
-            if namedType._NamedType__type._value != componentType._value:    # hacky...:) no other way for now
+            if namedType.asn1Object != componentType:
                 optional_default_bit_field_value += '1'
                 componentType.fill_field_list(rootComponentFieldList)
             else:
-- 
2.43.0


From 9ece9dfa30b5ddca4c88ba6d4f4d8ee5d0ae61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:30 +0000
Subject: [PATCH 07/29] fix: encoding or converting a SEQUENCE to dict no
 longer modifies it

Reading components with getComponentByName()/items() instantiated every component that
was not set, inside the value being encoded - visible to (and racing with) other threads.
---
 .../classes/data/builtin/SequenceType.py      |  5 ++--
 asn1PERser/codec/per/encoder.py               | 23 ++++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 21f88c2..82fdd14 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -1,6 +1,6 @@
 from collections import OrderedDict
 from pyasn1.type.univ import Sequence, noValue
-from asn1PERser.codec.per.encoder import encode_sequence
+from asn1PERser.codec.per.encoder import encode_sequence, get_sequence_component
 from asn1PERser.codec.per.decoder import decode_sequence
 from asn1PERser.classes.types.constraint import NoConstraint
 
@@ -34,7 +34,8 @@ class SequenceType(Sequence):
 
     def to_dict(self, is_root=True):
         component_dict = OrderedDict()
-        for componentType, componentValue in self.items():
+        for namedType in self.componentType.namedTypes:
+            componentType, componentValue = namedType.name, get_sequence_component(self, namedType)
             if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
                 value_dict = componentValue.to_dict(is_root=False)
                 if value_dict is not noValue:
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 47ef9d6..b1b560b 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -1,6 +1,7 @@
 from collections import namedtuple
 from collections import defaultdict
 import codecs
+from pyasn1.type.base import noValue
 
 
 __all__ = ['encode']
@@ -231,12 +232,22 @@ def encode_octetstring(octetstring):
             return octetstring_length_determinant + [octetstring_bit_field]
 
 
+def get_sequence_component(sequence, namedType):
+    # component as it is, not set one as it is in schema - reading it with getComponentByName() would
+    # instantiate it in (so modify) value which is being encoded
+    index = sequence.componentType.getPositionByName(namedType.name)
+    component = None
+    if index < len(sequence._componentValues):
+        component = sequence._componentValues[index]
+    return namedType.asn1Object if component is None or component is noValue else component
+
+
 def encode_sequence(sequence):    # 19
     sequence_field_list = []
     rootComponentFieldList = []
     optional_default_bit_field_value = ''
     for namedType in sequence.rootComponent.namedTypes:
-        componentType = sequence.getComponentByName(namedType.name)
+        componentType = get_sequence_component(sequence, namedType)
         if namedType.isOptional:    # 19.2
             if componentType.isValue:
                 if not hasattr(componentType, '_componentValues'):
@@ -278,7 +289,7 @@ def encode_sequence(sequence):    # 19
             extension_group_components = defaultdict(list)
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
-                    extensionComponentType = sequence.getComponentByName(namedType.name)
+                    extensionComponentType = get_sequence_component(sequence, namedType)
                     if extensionComponentType.isValue:
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
@@ -305,7 +316,7 @@ def encode_sequence(sequence):    # 19
                     previous_extensionGroupComponent = {}
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
-                        extensionComponentType = sequence.getComponentByName(namedType.name)
+                        extensionComponentType = get_sequence_component(sequence, namedType)
                         if extensionComponentType.isValue:
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
@@ -332,7 +343,7 @@ def encode_sequence(sequence):    # 19
                         extension_addition_bit_field_value += '1'
                         group_sequence = create_new_fake_empty_sequence(rootComponent=extensionAdditionGroup)
                         for namedType in extensionAdditionGroup.namedTypes:
-                            componentType = sequence.getComponentByName(namedType.name)
+                            componentType = get_sequence_component(sequence, namedType)
                             group_sequence._componentValues.append(componentType)
                         encoded = encode_open_type_field(group_sequence)
                         encoded_extension_addition_groups.extend(encoded)
@@ -666,10 +677,6 @@ def create_new_fake_empty_sequence(rootComponent):
             if sequence_field_list:
                 field_list.extend(sequence_field_list)
 
-        def getComponentByName(self, name):
-            idx = self.rootComponent.getPositionByName(name)
-            return self._componentValues[idx]
-
         def __setitem__(self, key, value):
             self.named_types[key] = value
 
-- 
2.43.0


From b79d20fef3010a2d9a34f73ed6ae9ea9166c9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:30 +0000
Subject: [PATCH 08/29] fix: absent optional SEQUENCE addition does not demand
 preceding additions

---
 asn1PERser/codec/per/encoder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index b1b560b..668b5b1 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -242,6 +242,10 @@ def get_sequence_component(sequence, namedType):
     return namedType.asn1Object if component is None or component is noValue else component
 
 
+def is_empty_structured(component):
+    return hasattr(component, '_componentValues') and len(component._componentValues) == 0
+
+
 def encode_sequence(sequence):    # 19
     sequence_field_list = []
     rootComponentFieldList = []
@@ -290,7 +294,7 @@ def encode_sequence(sequence):    # 19
             if sequence.extensionAddition:
                 for index, namedType in enumerate(sequence.extensionAddition.namedTypes, start=1):
                     extensionComponentType = get_sequence_component(sequence, namedType)
-                    if extensionComponentType.isValue:
+                    if extensionComponentType.isValue and not is_empty_structured(extensionComponentType):
                         if (index > 1) and (not previous_extensionComponent['present']) and (not previous_extensionComponent['optional']):
                             raise MandatoryExtensionFieldNotPresent(previous_extensionComponent['name'])
 
@@ -317,7 +321,7 @@ def encode_sequence(sequence):    # 19
                     for index, namedType in enumerate(extensionAdditionGroup.namedTypes, start=1):
                         previous_extension_addition_group_component_present = False
                         extensionComponentType = get_sequence_component(sequence, namedType)
-                        if extensionComponentType.isValue:
+                        if extensionComponentType.isValue and not is_empty_structured(extensionComponentType):
                             if (index > 1) and (not previous_extensionGroupComponent['present']) and (not previous_extensionGroupComponent['optional']):
                                 raise MandatoryFieldNotPresentInExtensionGroup(previous_extensionGroupComponent['name'])
                             if not hasattr(extensionComponentType, '_componentValues'):
-- 
2.43.0


From 8621291728d98f37b38060c78091891cec52f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:01 +0000
Subject: [PATCH 09/29] fix: SEQUENCE without content is a value when it has no
 mandatory root component

Extension additions were counted as mandatory, so an OPTIONAL list (or CHOICE) with such an
element in it was silently left out of the encoding.
---
 asn1PERser/classes/data/builtin/SequenceType.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 82fdd14..63c89b2 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -21,7 +21,14 @@ class SequenceType(Sequence):
         for component in self.components:
             if component is not noValue and component.isValue:
                 return True
-        return False
+        if self.rootComponent is None:
+            return False
+        # nothing is set: it is a value when there is nothing which has to be set - extension additions do not have to
+        for namedType in self.rootComponent.namedTypes:
+            if not (namedType.isOptional or namedType.isDefaulted or
+                    (isinstance(namedType.asn1Object, Sequence) and namedType.asn1Object.isValue)):
+                return False
+        return True
 
     def fill_field_list(self, field_list):
         sequence_field_list = encode_sequence(self)
-- 
2.43.0


From dc15c5b13d6d61e53bf0cfc212fc0f0959c88418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:01 +0000
Subject: [PATCH 10/29] fix: length 16384 does not fit in 14 bits, refuse it
 instead of sending a corrupt length

---
 asn1PERser/codec/per/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 668b5b1..e94a432 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -582,7 +582,7 @@ def encode_length_determinant(normally_small_length, constrained, n, lowerBound,
             encoded_length_determinant_with_8th_bit_zero = bit_field(octet_align=encoded_length_determinant.octet_align,
                                                                      value= '0' + encoded_length_determinant.value)
             return [encoded_length_determinant_with_8th_bit_zero]
-        elif 127 < n <= 16384:    # 11.9.3.7
+        elif 127 < n < 16384:    # 11.9.3.7
             determinant_size = bit_field_size(octets=1, bits=6)
             encoded_length_determinant = encode_non_negative_binary_integer(value=n, size=determinant_size,
                                                                             octet_align=True)
-- 
2.43.0


From be7417abd29d64ac19a2a31da344eba86f6bfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 11/29] fix: length of OCTET STRING / SEQUENCE OF with upper
 bound >= 65536 is unconstrained (11.9.4.1)

---
 asn1PERser/codec/per/decoder.py | 6 +++---
 asn1PERser/codec/per/encoder.py | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 7d5599a..5578e37 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -285,7 +285,7 @@ def decode_octetstring(octetstring, per_bytes):
     else:  # 17.8
         logger.info("%s: lowerEndpoint = %s; upperEndpoint = %s", octetstring.__class__.__name__,
                     octetstring.subtypeSpec.lowerEndpoint, octetstring.subtypeSpec.upperEndpoint)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = decode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=per_bytes,
@@ -434,7 +434,7 @@ def decode_sequence_of(sequence_of, per_bytes):
         logger.info("%s: extension bit: %s", sequence_of.__class__.__name__, extension_bit_field)
         if not extension_bit_field:
             length_determinant = decode_length_determinant(normally_small_length=False,
-                                                           constrained=True,
+                                                           constrained=sequence_of.subtypeSpec.upperEndpoint < 65536,
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
@@ -477,7 +477,7 @@ def decode_sequence_of(sequence_of, per_bytes):
     else:  # 20.6
         logger.info("%s: lowerEndpoint = %s and upperEndpoint = %s", sequence_of.__class__.__name__,
                     sequence_of.subtypeSpec.lowerEndpoint, sequence_of.subtypeSpec.upperEndpoint)
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = decode_length_determinant(normally_small_length=False,
                                                            constrained=True,
                                                            n=per_bytes,
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index e94a432..40afb59 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -212,7 +212,7 @@ def encode_octetstring(octetstring):
             raise NotImplemented
     else:    # 17.8
         octetstring_bit_field = bit_field(octet_align=True, value=octetstring_value)
-        if octetstring.subtypeSpec.upperEndpoint:
+        if octetstring.subtypeSpec.upperEndpoint and octetstring.subtypeSpec.upperEndpoint < 65536:
             octetstring_length_determinant = encode_length_determinant(normally_small_length=False,
                                                                        constrained=True,
                                                                        n=octetstring_len,
@@ -377,7 +377,8 @@ def encode_sequence_of(sequence_of):    # 20
     if sequence_of.subtypeSpec.extensionMarker:    #20.4
         if sequence_of.subtypeSpec.lowerEndpoint <= n <= sequence_of.subtypeSpec.upperEndpoint:
             extension_bit_field = bit_field(octet_align=False, value='0')
-            length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
+            length_determinant = encode_length_determinant(normally_small_length=False,
+                                                           constrained=sequence_of.subtypeSpec.upperEndpoint < 65536,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
             return [extension_bit_field] + length_determinant + sequence_of_field_list
@@ -394,7 +395,7 @@ def encode_sequence_of(sequence_of):    # 20
     elif (sequence_of.subtypeSpec.lowerEndpoint == sequence_of.subtypeSpec.upperEndpoint) and (sequence_of.subtypeSpec.upperEndpoint < 65536):    # 20.5
         return sequence_of_field_list
     else:    # 20.6
-        if sequence_of.subtypeSpec.upperEndpoint:
+        if sequence_of.subtypeSpec.upperEndpoint and sequence_of.subtypeSpec.upperEndpoint < 65536:
             length_determinant = encode_length_determinant(normally_small_length=False, constrained=True,
                                                            n=n, lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
-- 
2.43.0


From 4be1941bb5b35061a096c62ddffd62d284160eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 12/29] fix: keep extension bit of an extensible string with
 zero size root

---
 asn1PERser/codec/per/encoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 40afb59..8e38d06 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -140,7 +140,7 @@ def encode_bitstring(bitstring):    # 16
             return [extension_bit_field] + bitstring_length_determinant + [bitstring_bit_field]
     # else:    # 16.7
     if bitstring.subtypeSpec.upperEndpoint == 0:    # 16.8
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (bitstring.subtypeSpec.lowerEndpoint is not None) and (bitstring.subtypeSpec.lowerEndpoint == bitstring.subtypeSpec.upperEndpoint):
         if bitstring_len <= 16:    # 16.9
             bitstring_bit_field = bit_field(octet_align=False, value=bitstring_value)
@@ -196,7 +196,7 @@ def encode_octetstring(octetstring):
                                                                        upperBound=None)
             return [extension_bit_field] + octetstring_length_determinant + [octetstring_bit_field]
     if octetstring.subtypeSpec.upperEndpoint == 0:    # 17.5
-        return
+        return [extension_bit_field] if extension_bit_field else []
     if (octetstring.subtypeSpec.lowerEndpoint is not None) and (octetstring.subtypeSpec.lowerEndpoint == octetstring.subtypeSpec.upperEndpoint):
         if octetstring_len <= 2:    # 17.6
             octetstring_bit_field = bit_field(octet_align=False, value=octetstring_value)
-- 
2.43.0


From 2a268ce4870ea74f988311e645c1c2914a4993fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:52 +0000
Subject: [PATCH 13/29] fix: use general length determinant for unconstrained
 INTEGER so long values survive

---
 asn1PERser/codec/per/decoder.py | 6 +++++-
 asn1PERser/codec/per/encoder.py | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 5578e37..a67fe16 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -678,7 +678,11 @@ def decode_normally_small_non_negative_whole_number(per_bytes, lower_bound):
 
 def decode_unconstrained_whole_number(per_bytes):
     logger.debug("function: decode_unconstrained_whole_number; params: per_bytes: (hidden)")
-    unconstrained_length_determinant = per_bytes.next(octet_align=True)
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=0,
+                                                                 upperBound=None)
     logger.debug("unconstarined length determinant: %s", unconstrained_length_determinant)
     unconstrained_whole_number = twos_comp(
         per_bytes=per_bytes.next(bit_field_size(octets=unconstrained_length_determinant, bits=0)),
diff --git a/asn1PERser/codec/per/encoder.py b/asn1PERser/codec/per/encoder.py
index 8e38d06..6a04b3c 100644
--- a/asn1PERser/codec/per/encoder.py
+++ b/asn1PERser/codec/per/encoder.py
@@ -541,8 +541,12 @@ def encode_semi_constrained_whole_number(n, lower_bound):    # 11.7
 def create_field_list_for_unconstrained_whole_number(integer):
     unconstrained_length_determinant = get_twos_complement_octet_len(integer)
     unconstrained_whole_number = encode_unconstrained_whole_number(integer, unconstrained_length_determinant)
-    unconstrained_length_determinant = '{0:08b}'.format(unconstrained_length_determinant)
-    return [bit_field(octet_align=True, value=unconstrained_length_determinant + unconstrained_whole_number.value)]
+    unconstrained_length_determinant = encode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=unconstrained_length_determinant,
+                                                                 lowerBound=0,
+                                                                 upperBound=None)
+    return unconstrained_length_determinant + [unconstrained_whole_number]
 
 
 def encode_unconstrained_whole_number(integer, unconstrained_length_determinant):    # 11.8
-- 
2.43.0


From 15a08bc7da9547669d14f5ef10d30b58c4784c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:01 +0000
Subject: [PATCH 14/29] fix: raise on a stream that ends before the value does
 instead of decoding the bits left

---
 asn1PERser/codec/per/decoder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index a67fe16..3d379fb 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -11,6 +11,14 @@ __all__ = ['decode']
 logger = logging.getLogger("asn1perser.decoder")
 
 
+class PerDecodingException(Exception):
+    pass
+
+
+class UnexpectedEndOfStream(PerDecodingException):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -50,6 +58,8 @@ class PerBytes(object):
         if octet_align:
             self.offset.align()
         bits = self[self.offset:self.offset + size]
+        if len(bits) < size.octets * 8 + size.bits:
+            raise UnexpectedEndOfStream('{} bits expected but only {} left'.format(size.octets * 8 + size.bits, len(bits)))
         logger.debug("Bits taken: '%s'", 'none' if (size.octets == 0 and size.bits == 0) else "0b" + bits)
         val = int(bits, 2)
         return val
-- 
2.43.0


From cf581ffce776b98b17e5a4fd24a3d208a38f043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:01 +0000
Subject: [PATCH 15/29] fix: refuse a decoded SEQUENCE OF size outside of its
 SIZE constraint

---
 asn1PERser/codec/per/decoder.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 3d379fb..ade0cc7 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -19,6 +19,10 @@ class UnexpectedEndOfStream(PerDecodingException):
     pass
 
 
+class SizeConstrainViolated(PerDecodingException):
+    pass
+
+
 class Offset(object):
     def __init__(self, octets=0, bits=0):
         self.prev_octets = octets
@@ -433,6 +437,12 @@ def decode_sequence(sequence, per_bytes):
     return new_seq
 
 
+def check_sequence_of_size(sequence_of, size):
+    lowerEndpoint, upperEndpoint = sequence_of.subtypeSpec.lowerEndpoint, sequence_of.subtypeSpec.upperEndpoint
+    if (lowerEndpoint is not None and size < lowerEndpoint) or (upperEndpoint is not None and size > upperEndpoint):
+        raise SizeConstrainViolated("Number of SEQUENCE OF {} components = {}".format(sequence_of.__class__, size))
+
+
 def decode_sequence_of(sequence_of, per_bytes):
     logger.info("Decoding sequence of: %s", sequence_of.__class__.__name__)
     new_seq_of = sequence_of.__class__()
@@ -448,6 +458,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
+            check_sequence_of_size(sequence_of, length_determinant)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -493,6 +504,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=sequence_of.subtypeSpec.upperEndpoint)
+            check_sequence_of_size(sequence_of, length_determinant)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
@@ -508,6 +520,7 @@ def decode_sequence_of(sequence_of, per_bytes):
                                                            n=per_bytes,
                                                            lowerBound=sequence_of.subtypeSpec.lowerEndpoint,
                                                            upperBound=None)
+            check_sequence_of_size(sequence_of, length_determinant)
             logger.info("%s: decoding %s component(s) of type: '%s'", sequence_of.__class__.__name__,
                         length_determinant, component_type.__class__.__name__)
             for index in range(length_determinant):
-- 
2.43.0


From 2cec3f114f3898797ffa6abd2d52b9272e20e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:33 +0000
Subject: [PATCH 16/29] fix: decode SEQUENCE sent by a peer knowing another
 number of extension additions

---
 asn1PERser/codec/per/decoder.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index ade0cc7..04dcdc0 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -397,7 +397,10 @@ def decode_sequence(sequence, per_bytes):
                                                                           lowerBound=None,
                                                                           upperBound=None)
         extension_addition_bit_field_value = per_bytes.next(size=bit_field_size(octets=0, bits=extension_addition_length_determinant))
-        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_bit_field_len)
+        extension_addition_bit_field_bits = bin(extension_addition_bit_field_value)[2:].zfill(extension_addition_length_determinant)
+        # sender may know more (or less) extension additions than receiver
+        unknown_extension_addition_bits = extension_addition_bit_field_bits[extension_addition_bit_field_len:]
+        extension_addition_bit_field_bits = extension_addition_bit_field_bits[:extension_addition_bit_field_len].ljust(extension_addition_bit_field_len, '0')
         logger.info("%s: extension bits: '%s'; within that: extension addition bits: '%s'; extension addition group bits: '%s'",
                     sequence.__class__.__name__,
                     extension_addition_bit_field_bits,
@@ -433,6 +436,10 @@ def decode_sequence(sequence, per_bytes):
                 else:
                     logger.info("%s: extension addition group number %s not present",
                                 sequence.__class__.__name__, group_index)
+        for is_present_bit in unknown_extension_addition_bits:
+            if int(is_present_bit):
+                logger.info("%s: unknown extension addition present, skipping it", sequence.__class__.__name__)
+                skip_open_type_field(per_bytes)
     logger.info("%s: decoding finished.", sequence.__class__.__name__)
     return new_seq
 
@@ -660,6 +667,15 @@ def decode_open_type_field(type, per_bytes):
     return decoded
 
 
+def skip_open_type_field(per_bytes):
+    unconstrained_length_determinant = decode_length_determinant(normally_small_length=False,
+                                                                 constrained=False,
+                                                                 n=per_bytes,
+                                                                 lowerBound=None,
+                                                                 upperBound=None)
+    per_bytes.next(size=bit_field_size(octets=unconstrained_length_determinant, bits=0), octet_align=True)
+
+
 def decode_constrained_whole_number(per_bytes, lowerBound, upperBound):
     logger.debug("function: decode_constrained_whole_number; params: per_bytes: (hidden), lowerBound: %s, "
                  "upperBound: %s", lowerBound, upperBound)
-- 
2.43.0


From b701b84fd6788268660d2a138fc831fb752eb780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:13 +0000
Subject: [PATCH 17/29] fix: decoding does not modify the schema object it is
 given

Reading a component with getComponentByName()/getComponentByPosition() instantiates it (and, for
a CHOICE, selects it) in asn1Spec - or in the class-level component type shared by all threads.
---
 asn1PERser/codec/per/decoder.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/asn1PERser/codec/per/decoder.py b/asn1PERser/codec/per/decoder.py
index 04dcdc0..3e689bb 100644
--- a/asn1PERser/codec/per/decoder.py
+++ b/asn1PERser/codec/per/decoder.py
@@ -361,7 +361,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding optional component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -373,7 +373,7 @@ def decode_sequence(sequence, per_bytes):
             if is_present:
                 logger.info("%s: decoding default component: '%s' of type '%s' ...", sequence.__class__.__name__,
                             namedType.name, namedType.asn1Object.__class__.__name__)
-                componentType = sequence.getComponentByName(namedType.name)
+                componentType = namedType.asn1Object
                 decoded = componentType.create_field_list(per_bytes)
                 logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
                 new_seq[namedType.name] = decoded
@@ -383,7 +383,7 @@ def decode_sequence(sequence, per_bytes):
         else:
             logger.info("%s: decoding component: '%s' of type '%s' ...", sequence.__class__.__name__,
                         namedType.name, namedType.asn1Object.__class__.__name__)
-            componentType = sequence.getComponentByName(namedType.name)
+            componentType = namedType.asn1Object
             decoded = componentType.create_field_list(per_bytes)
             logger.info("%s: decoded component: '%s'", sequence.__class__.__name__, namedType.name)
             new_seq[namedType.name] = decoded
@@ -413,7 +413,7 @@ def decode_sequence(sequence, per_bytes):
                 if int(is_present_bit):
                     logger.info("%s: extension addition component '%s' present. Decoding...", sequence.__class__.__name__,
                                 extensionNamedType.name)
-                    componentType = sequence.getComponentByName(extensionNamedType.name)
+                    componentType = extensionNamedType.asn1Object
                     decoded = decode_open_type_field(componentType, per_bytes)
                     logger.info("%s: decoded extension addition component: '%s'", sequence.__class__.__name__, extensionNamedType.name)
                     new_seq[extensionNamedType.name] = decoded
@@ -547,7 +547,7 @@ def decode_choice(choice, per_bytes):    # 23
         if len(choice.rootComponent.namedTypes) == 1:  # 23.4
             logger.info("%s: length of choice list is 1", choice.__class__.__name__)
             selected_type = choice.rootComponent.namedTypes[0]
-            selected_component = choice.getComponentByName(selected_type.name)
+            selected_component = selected_type.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...", choice.__class__.__name__,
                         selected_type.name, selected_component.__class__.__name__)
             val = selected_component.create_field_list(per_bytes)
@@ -558,7 +558,7 @@ def decode_choice(choice, per_bytes):    # 23
         else:    # 23.6
             index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
             namedType = choice.rootComponent.namedTypes[index]
-            selected_component = choice.getComponentByPosition(index)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...", choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
             val = selected_component.create_field_list(per_bytes)
@@ -574,7 +574,7 @@ def decode_choice(choice, per_bytes):    # 23
             if len(choice.rootComponent.namedTypes) == 1:  # 23.4
                 logger.info("%s: length of choice list is 1", choice.__class__.__name__)
                 selected_type = choice.rootComponent.namedTypes[0]
-                selected_component = choice.getComponentByName(selected_type.name)
+                selected_component = selected_type.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index 0. Decoding...",
                             choice.__class__.__name__,
                             selected_type.name, selected_component.__class__.__name__)
@@ -587,7 +587,7 @@ def decode_choice(choice, per_bytes):    # 23
             else:
                 index = decode_constrained_whole_number_from_field_list(per_bytes, lowerEndpoint=0, upperEndpoint=n)
                 namedType = choice.rootComponent.namedTypes[index]
-                selected_component = choice.getComponentByPosition(index)
+                selected_component = namedType.asn1Object
                 logger.info("%s: chosen component: '%s' of type '%s' has index %s. Decoding...",
                             choice.__class__.__name__,
                             namedType.name, selected_component.__class__.__name__, index)
@@ -613,7 +613,7 @@ def decode_choice(choice, per_bytes):    # 23
                              choice.__class__.__name__)
                 raise NotImplemented
             namedType = choice_extension.namedTypes[index]
-            selected_component = choice.getComponentByName(namedType.name)
+            selected_component = namedType.asn1Object
             logger.info("%s: chosen component: '%s' of type '%s' has index %s (indexed from extension choices). Decoding...",
                         choice.__class__.__name__,
                         namedType.name, selected_component.__class__.__name__, index)
@@ -799,10 +799,6 @@ def create_new_fake_empty_sequence(rootComponent):
         def create_field_list(self, per_bytes):
             return decode_sequence(self, per_bytes)
 
-        def getComponentByName(self, name):
-            idx = self.rootComponent.getPositionByName(name)
-            return self.rootComponent.getTypeByPosition(idx)
-
         def __setitem__(self, key, value):
             self.named_types[key] = value
 
-- 
2.43.0


From ce4e2ee214b41ad7949561fd14e1865c42fa09e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:50 +0000
Subject: [PATCH 18/29] fix: definitions of one schema do not leak into schemas
 parsed later

---
 asn1PERser/__init__.py       | 3 ++-
 asn1PERser/classes/module.py | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 61e044d..6002261 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,6 +1,6 @@
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
-from asn1PERser.classes.module import remove_comments
+from asn1PERser.classes.module import remove_comments, forget_parsed_definitions
 from asn1PERser.asn_definitions.module_def import ModuleDefinition
 from asn1PERser.logging_setup import asn1perser_logging_setup
 
@@ -11,5 +11,6 @@ asn1perser_logging_setup()
 
 def parse_asn1_schema(asn1_schema, output_folder=None):
     no_comment_schema = remove_comments(asn1_schema)
+    forget_parsed_definitions()
     parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
     return parsed_asn.create_python_template(path=output_folder)
diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1007edd..b9293c4 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -196,6 +196,14 @@ class ModuleDefinition(Template):
         return module_str
 
 
+def forget_parsed_definitions():
+    # definitions of a previously parsed (also unsuccessfully) schema are not part of the next one
+    typereference_to_type.clear()
+    valuereference_to_type.clear()
+    constants.clear()
+    already_filled_template.clear()
+
+
 def remove_comments(asn1_schema):
     return _remove_line_comments(asn1_schema)
 
-- 
2.43.0


From 663ced5c249697ea24de307ac8197b30cab7aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:50 +0000
Subject: [PATCH 19/29] fix: schemas can be parsed from several threads

---
 asn1PERser/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1PERser/__init__.py b/asn1PERser/__init__.py
index 6002261..c3f5de3 100644
--- a/asn1PERser/__init__.py
+++ b/asn1PERser/__init__.py
@@ -1,3 +1,4 @@
+import threading
 from asn1PERser.codec.per.decoder import decode
 from asn1PERser.codec.per.encoder import encode
 from asn1PERser.classes.module import remove_comments, forget_parsed_definitions
@@ -9,8 +10,11 @@ __all__ = ['decode', 'encode', 'parse_asn1_schema']
 
 asn1perser_logging_setup()
 
+_parser_lock = threading.RLock()    # parser keeps definitions found so far in module level dictionaries
+
 def parse_asn1_schema(asn1_schema, output_folder=None):
     no_comment_schema = remove_comments(asn1_schema)
-    forget_parsed_definitions()
-    parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
-    return parsed_asn.create_python_template(path=output_folder)
+    with _parser_lock:
+        forget_parsed_definitions()
+        parsed_asn = ModuleDefinition.parseString(no_comment_schema)[0]
+        return parsed_asn.create_python_template(path=output_folder)
-- 
2.43.0


From 2bb616c6751253f4cfcd841955ef76788b09e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:50 +0000
Subject: [PATCH 20/29] fix: output module is replaced at once, never left
 partly written

---
 asn1PERser/classes/module.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index b9293c4..1bc578e 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -25,8 +25,7 @@ class ModuleDefinition(Template):
         template = self.fill_template()
         if not path:
             return template
-        with open(os.path.join(path, self.ModuleIdentifier + '.py'), 'w') as template_file:
-            template_file.write(template)
+        _write_file(os.path.join(path, self.ModuleIdentifier + '.py'), template)
 
     def fill_template(self):
         already_filled_template.clear()
@@ -196,6 +195,19 @@ class ModuleDefinition(Template):
         return module_str
 
 
+def _write_file(file_path, content):
+    # file is complete or it is not changed at all, also when writing fails or is interrupted
+    temporary_path = '{}.{}.tmp'.format(file_path, os.getpid())
+    try:
+        with open(temporary_path, 'w') as temporary_file:
+            temporary_file.write(content)
+        getattr(os, 'replace', os.rename)(temporary_path, file_path)
+    except BaseException:
+        if os.path.exists(temporary_path):
+            os.remove(temporary_path)
+        raise
+
+
 def forget_parsed_definitions():
     # definitions of a previously parsed (also unsuccessfully) schema are not part of the next one
     typereference_to_type.clear()
-- 
2.43.0


From c2d7d321e78c46f92a9a495c97152df1b0222b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:48 +0000
Subject: [PATCH 21/29] fix: value reference with a hyphen can be a bound of a
 constraint

---
 asn1PERser/classes/parse_actions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/parse_actions.py b/asn1PERser/classes/parse_actions.py
index 1f0a662..33e2834 100644
--- a/asn1PERser/classes/parse_actions.py
+++ b/asn1PERser/classes/parse_actions.py
@@ -186,4 +186,6 @@ def parse_Constraint(toks):
     if '...' in parsed:
         parsed.remove('...')
         ext_mark = True
-    return constraint_tuple(lowerEndpoint=parsed[0], upperEndpoint=parsed[-1], extensionMarker=ext_mark)
+    lower, upper = [endpoint.replace('-', '_') if endpoint[0].isalpha() else endpoint    # name of value, as in its assignment
+                    for endpoint in (parsed[0], parsed[-1])]
+    return constraint_tuple(lowerEndpoint=lower, upperEndpoint=upper, extensionMarker=ext_mark)
-- 
2.43.0


From 4e20a570e19a25a3f1badeaf6bc46ca5bfecf474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:41 +0000
Subject: [PATCH 22/29] fix: constraint bounds given as value references are
 plain integers

---
 asn1PERser/classes/types/constraint.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asn1PERser/classes/types/constraint.py b/asn1PERser/classes/types/constraint.py
index c563c5f..0c653e2 100644
--- a/asn1PERser/classes/types/constraint.py
+++ b/asn1PERser/classes/types/constraint.py
@@ -45,16 +45,16 @@ class SequenceOfValueSize(ConstraintsIntersection):
     '''
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = None if lower_endpoint == MIN else int(lower_endpoint)    # may be a value reference
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(SequenceOfValueSize, self).__init__()
 
 
 class ValueRange(ValueRangeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = None if lower_endpoint == MIN else int(lower_endpoint)    # may be a value reference
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(ValueRange, self).__init__(lower_endpoint, upper_endpoint)
 
     def _testValue(self, value, idx):
@@ -77,8 +77,8 @@ class SingleValue(SingleValueConstraint):
 class ValueSize(ValueSizeConstraint):
     def __init__(self, lower_endpoint, upper_endpoint, extensionMarker=False):
         self.extensionMarker = extensionMarker
-        self.lowerEndpoint = None if lower_endpoint == MIN else lower_endpoint
-        self.upperEndpoint = None if upper_endpoint == MAX else upper_endpoint
+        self.lowerEndpoint = None if lower_endpoint == MIN else int(lower_endpoint)    # may be a value reference
+        self.upperEndpoint = None if upper_endpoint == MAX else int(upper_endpoint)
         super(ValueSize, self).__init__(lower_endpoint, upper_endpoint)
 
     def _testValue(self, value, idx):
-- 
2.43.0


From 51122f493164f27cd0b7b8048a3587261b522e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 23/29] fix: default value of a component whose type is an
 alias is written as the aliased type demands

---
 asn1PERser/classes/types/builtin/SequenceType.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 4013c19..43e9baa 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -1,4 +1,4 @@
-from ..type import ComponentType
+from ..type import ComponentType, DefType
 from asn1PERser.classes.templates.creator import template_filler
 from asn1PERser.classes.module import already_filled_template, typereference_to_type, constants
 
@@ -99,7 +99,11 @@ class SequenceType(ComponentType):
                 named_type_properties['default_value'] = str(ComponentType.default)
             else:
                 if ComponentType.typereference in typereference_to_type.keys():
-                    named_type_properties['default_value'] = typereference_to_type[ComponentType.typereference].parse_value(ComponentType.default)
+                    defined_type = typereference_to_type[ComponentType.typereference]
+                    for _ in range(len(typereference_to_type)):    # Foo ::= Bar, value is written as Bar demands
+                        if isinstance(defined_type, DefType) and defined_type.typereference in typereference_to_type:
+                            defined_type = typereference_to_type[defined_type.typereference]
+                    named_type_properties['default_value'] = defined_type.parse_value(ComponentType.default)
                 else:
                     named_type_properties['default_value'] = str(ComponentType.default)
         else:
-- 
2.43.0


From dfaad5a337efa725487e641d13883da02efa3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:13 +0000
Subject: [PATCH 24/29] fix: types are defined before they are used also
 through type aliases

---
 asn1PERser/classes/module.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 1bc578e..4a4d690 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -57,7 +57,32 @@ class ModuleDefinition(Template):
                 component_type_assignments.append(assignment)
         component_type_assignments = self.sort_components(component_type_assignments)
         type_type_assignments, component_type_assignments = self.additional_sort(type_type_assignments, component_type_assignments)
-        return [] + value_assignments + simple_type_assignments + type_type_assignments + constant_assignments + component_type_assignments
+        return self.sort_definitions_before_use([] + value_assignments + simple_type_assignments + type_type_assignments
+                                                + constant_assignments + component_type_assignments)
+
+    def sort_definitions_before_use(self, assignments):
+        # order is kept unless type is used (by other type, type alias or constant) before it is defined
+        name_to_assignment = {}
+        for assignment in assignments:
+            if not assignment.valuereference:
+                name = assignment.identifier if isinstance(assignment, DefType) else assignment.typereference
+                name_to_assignment[name] = assignment
+        placed = []
+        visited = set()
+
+        def place(assignment):
+            if id(assignment) in visited:
+                return
+            visited.add(id(assignment))
+            if not isinstance(assignment, SimpleType):
+                for used_type in self._get_subcomponents(assignment):
+                    if used_type.typereference in name_to_assignment:
+                        place(name_to_assignment[used_type.typereference])
+            placed.append(assignment)
+
+        for assignment in assignments:
+            place(assignment)
+        return placed
 
     def sort_components(self, component_type_assignments):
         MAX_ITERATIONS = 100
-- 
2.43.0


From be52b0b66b2afca27180ec622c8ce90398b62e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:19 +0000
Subject: [PATCH 25/29] fix: value assignment of an enumerated type does not
 hang the compiler

---
 asn1PERser/classes/types/builtin/DefinedType.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/types/builtin/DefinedType.py b/asn1PERser/classes/types/builtin/DefinedType.py
index fc3df2b..b5357f3 100644
--- a/asn1PERser/classes/types/builtin/DefinedType.py
+++ b/asn1PERser/classes/types/builtin/DefinedType.py
@@ -17,7 +17,9 @@ class DefinedType(DefType):
                                         typereference=self.typereference.replace('-', '_'))
 
         if self.Value and self.valuereference and self.typereference:  # foo SomeType ::= value
-            while not defined_type.__class__.__name__ in ['IntegerType', 'BooleanType', 'OctetStringType', 'BitStringType']:
+            for _ in range(len(typereference_to_type)):
+                if not isinstance(defined_type, DefType):
+                    break
                 defined_type = typereference_to_type[defined_type.typereference]
             defined_type.valuereference = self.valuereference
             defined_type.typereference = self.typereference
-- 
2.43.0


From a77a989ab58d14d8c496d95118da30ce84f792d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:22 +0000
Subject: [PATCH 26/29] fix: name of a value is followed wherever a value is
 expected

---
 asn1PERser/classes/types/builtin/BooleanType.py    |  2 +-
 asn1PERser/classes/types/builtin/EnumeratedType.py |  5 +++++
 asn1PERser/classes/types/builtin/SequenceType.py   |  7 ++++---
 asn1PERser/classes/types/type.py                   | 12 +++++++++---
 4 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/asn1PERser/classes/types/builtin/BooleanType.py b/asn1PERser/classes/types/builtin/BooleanType.py
index 71f74c0..cfdedfc 100644
--- a/asn1PERser/classes/types/builtin/BooleanType.py
+++ b/asn1PERser/classes/types/builtin/BooleanType.py
@@ -9,7 +9,7 @@ class BooleanType(SimpleType):
         self.typereference = self.__class__.__name__
 
     def fill_template(self, has_parent=False):
-        if isinstance(self.Value, bool):
+        if self.Value is not None:
             return template_filler.fill(asn_type=self.__class__.__name__, type_or_value='value',
                                         valuereference=self.valuereference, value=self.Value,
                                         class_type=self.template_field_type)
diff --git a/asn1PERser/classes/types/builtin/EnumeratedType.py b/asn1PERser/classes/types/builtin/EnumeratedType.py
index b96cd3c..b9f825f 100644
--- a/asn1PERser/classes/types/builtin/EnumeratedType.py
+++ b/asn1PERser/classes/types/builtin/EnumeratedType.py
@@ -52,6 +52,11 @@ class EnumeratedType(SimpleType):
     def parse_value(self, value):
         return "'" + value + "'"
 
+    def parse_value_or_reference(self, value):
+        if value in [str(EnumerationItem).strip() for EnumerationItem in self.EnumerationItems]:
+            return self.parse_value(value)
+        return super(EnumeratedType, self).parse_value_or_reference(value)
+
     def __repr__(self):
         return '\n\t'.join([super(EnumeratedType, self).__repr__()] + \
                            ['{' + str(item).strip() + '}' for item in self.EnumerationItems if item])
diff --git a/asn1PERser/classes/types/builtin/SequenceType.py b/asn1PERser/classes/types/builtin/SequenceType.py
index 43e9baa..cc3a337 100644
--- a/asn1PERser/classes/types/builtin/SequenceType.py
+++ b/asn1PERser/classes/types/builtin/SequenceType.py
@@ -94,16 +94,17 @@ class SequenceType(ComponentType):
             named_type_properties['optional'] = True
         elif ComponentType.default is not None:
             named_type_properties['default'] = True
-            if ComponentType.default in constants.keys():
+            constant = constants.get(str(ComponentType.default).replace('-', '_'))
+            if constant and constant.typereference == ComponentType.typereference:
                 named_type_properties['is_constant'] = True;
-                named_type_properties['default_value'] = str(ComponentType.default)
+                named_type_properties['default_value'] = constant.valuereference
             else:
                 if ComponentType.typereference in typereference_to_type.keys():
                     defined_type = typereference_to_type[ComponentType.typereference]
                     for _ in range(len(typereference_to_type)):    # Foo ::= Bar, value is written as Bar demands
                         if isinstance(defined_type, DefType) and defined_type.typereference in typereference_to_type:
                             defined_type = typereference_to_type[defined_type.typereference]
-                    named_type_properties['default_value'] = defined_type.parse_value(ComponentType.default)
+                    named_type_properties['default_value'] = defined_type.parse_value_or_reference(ComponentType.default)
                 else:
                     named_type_properties['default_value'] = str(ComponentType.default)
         else:
diff --git a/asn1PERser/classes/types/type.py b/asn1PERser/classes/types/type.py
index 1d196af..fa2b9d6 100644
--- a/asn1PERser/classes/types/type.py
+++ b/asn1PERser/classes/types/type.py
@@ -19,6 +19,11 @@ class Type(Template):
     def parse_value(self, value):
         return value
 
+    def parse_value_or_reference(self, value):
+        if isinstance(value, str) and value[:1].islower():    # name of other value
+            return value.replace('-', '_')
+        return self.parse_value(value)
+
     def is_constrained(self):
         if isinstance(self.constraint, NoConstraint):
             return False
@@ -54,7 +59,7 @@ class Type(Template):
 
     @Value.setter
     def Value(self, value):
-        self._Value = self.parse_value(value)
+        self._Value = self.parse_value_or_reference(value)
 
     @property
     def optional(self):
@@ -67,7 +72,7 @@ class Type(Template):
     @property
     def default(self):
         if self._default:
-            return self.parse_value(self._default)
+            return self.parse_value_or_reference(self._default)
         return self._default
 
     @default.setter
@@ -104,7 +109,8 @@ class ComponentType(Type):
 
 
 class DefType(Type):
-    pass
+    def parse_value_or_reference(self, value):    # it depends on the type which is referenced
+        return value
 
 
 class AdditiveNamedTypes(NamedTypes):
-- 
2.43.0


From ea3366cc3ed0cff55504e25d7ccedf9d5a68fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:23 +0000
Subject: [PATCH 27/29] fix: values are defined before they are used

---
 asn1PERser/classes/module.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/asn1PERser/classes/module.py b/asn1PERser/classes/module.py
index 4a4d690..a8ebaec 100644
--- a/asn1PERser/classes/module.py
+++ b/asn1PERser/classes/module.py
@@ -61,12 +61,12 @@ class ModuleDefinition(Template):
                                                 + constant_assignments + component_type_assignments)
 
     def sort_definitions_before_use(self, assignments):
-        # order is kept unless type is used (by other type, type alias or constant) before it is defined
+        # order is kept unless type or value is used before it is defined
         name_to_assignment = {}
         for assignment in assignments:
-            if not assignment.valuereference:
-                name = assignment.identifier if isinstance(assignment, DefType) else assignment.typereference
-                name_to_assignment[name] = assignment
+            name = assignment.valuereference or \
+                (assignment.identifier if isinstance(assignment, DefType) else assignment.typereference)
+            name_to_assignment[name.replace('-', '_')] = assignment
         placed = []
         visited = set()
 
@@ -74,16 +74,26 @@ class ModuleDefinition(Template):
             if id(assignment) in visited:
                 return
             visited.add(id(assignment))
-            if not isinstance(assignment, SimpleType):
-                for used_type in self._get_subcomponents(assignment):
-                    if used_type.typereference in name_to_assignment:
-                        place(name_to_assignment[used_type.typereference])
+            for name in self._get_used_names(assignment):
+                if name in name_to_assignment:
+                    place(name_to_assignment[name])
             placed.append(assignment)
 
         for assignment in assignments:
             place(assignment)
         return placed
 
+    def _get_used_names(self, assigned_type):
+        if isinstance(assigned_type, str):  # elipsis: ...
+            return []
+        names = [assigned_type.typereference, assigned_type.constraint.lowerEndpoint,
+                 assigned_type.constraint.upperEndpoint, assigned_type.default, assigned_type.Value]
+        names = [str(name).replace('-', '_') for name in names if name]
+        if isinstance(assigned_type, ComponentType):
+            for component in assigned_type:
+                names += self._get_used_names(component)
+        return names
+
     def sort_components(self, component_type_assignments):
         MAX_ITERATIONS = 100
         all_sorted = False
-- 
2.43.0


From 3ed276a905f2261e9ec9c0af1180993124c6247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:03 +0000
Subject: [PATCH 28/29] fix: dictionary of a message does not list defaults of
 SEQUENCE which is absent

---
 asn1PERser/classes/data/builtin/SequenceType.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1PERser/classes/data/builtin/SequenceType.py b/asn1PERser/classes/data/builtin/SequenceType.py
index 63c89b2..d1c7f8b 100644
--- a/asn1PERser/classes/data/builtin/SequenceType.py
+++ b/asn1PERser/classes/data/builtin/SequenceType.py
@@ -1,6 +1,6 @@
 from collections import OrderedDict
 from pyasn1.type.univ import Sequence, noValue
-from asn1PERser.codec.per.encoder import encode_sequence, get_sequence_component
+from asn1PERser.codec.per.encoder import encode_sequence, get_sequence_component, is_empty_structured
 from asn1PERser.codec.per.decoder import decode_sequence
 from asn1PERser.classes.types.constraint import NoConstraint
 
@@ -43,6 +43,8 @@ class SequenceType(Sequence):
         component_dict = OrderedDict()
         for namedType in self.componentType.namedTypes:
             componentType, componentValue = namedType.name, get_sequence_component(self, namedType)
+            if isinstance(componentValue, SequenceType) and self.is_absent(namedType, componentValue):
+                continue
             if (componentValue is not noValue and componentValue.isValue) or hasattr(componentValue, 'componentType'):
                 value_dict = componentValue.to_dict(is_root=False)
                 if value_dict is not noValue:
@@ -53,3 +55,9 @@ class SequenceType(Sequence):
         if not component_dict:
             return noValue
         return component_dict
+
+    def is_absent(self, namedType, component):
+        # SEQUENCE which is not in the message - default values of its components are not in the message either
+        if not namedType.isOptional and (self.rootComponent is None or namedType.name in self.rootComponent):
+            return False
+        return is_empty_structured(component)
-- 
2.43.0


From 74c8c7f6cfd667d0d0d56b5e4de184e91c115fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:17 +0000
Subject: [PATCH 29/29] fix: words of a type or tag name can be separated with
 any white space

---
 asn1PERser/asn_definitions/lexical_items.py |  7 ++++++-
 asn1PERser/asn_definitions/module_def.py    |  8 ++++----
 asn1PERser/asn_definitions/type_def.py      | 10 +++++-----
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/asn1PERser/asn_definitions/lexical_items.py b/asn1PERser/asn_definitions/lexical_items.py
index 63a7efa..f20f759 100644
--- a/asn1PERser/asn_definitions/lexical_items.py
+++ b/asn1PERser/asn_definitions/lexical_items.py
@@ -1,8 +1,13 @@
-from pyparsing import oneOf, Word, ZeroOrMore, Regex, Literal, Empty
+from pyparsing import oneOf, Word, ZeroOrMore, Regex, Literal, Empty, replaceWith
 from .character_and_word_set import A_to_Z_latin, a_to_z_latin, \
     digits, hyphen_minus, non_breaking_hyphen, allowed_character_set, newline
 
 
+def reserved_words(words):
+    # any white space can be between them
+    return Regex(r'\s+'.join(words.split(' '))).setParseAction(replaceWith(words))
+
+
 '''
 Rec. ITU-T X.680 (08/2015)
 12.2 Type references
diff --git a/asn1PERser/asn_definitions/module_def.py b/asn1PERser/asn_definitions/module_def.py
index d0469ec..270584a 100644
--- a/asn1PERser/asn_definitions/module_def.py
+++ b/asn1PERser/asn_definitions/module_def.py
@@ -4,13 +4,13 @@ from .assignment_def import TypeAssignment, ValueAssignment
 from .common_def import DefinedValue
 from .lexical_items import COMMA, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET, \
     assignment, typereference, valuereference, empty, modulereference, \
-    number, identifier
+    number, identifier, reserved_words
 
 
 FROM = Literal("FROM")
-EXPLICIT_TAGS = Literal("EXPLICIT TAGS")
-IMPLICIT_TAGS = Literal("IMPLICIT TAGS")
-AUTOMATIC_TAGS = Literal("AUTOMATIC TAGS")
+EXPLICIT_TAGS = reserved_words("EXPLICIT TAGS")
+IMPLICIT_TAGS = reserved_words("IMPLICIT TAGS")
+AUTOMATIC_TAGS = reserved_words("AUTOMATIC TAGS")
 DEFINITIONS = Literal("DEFINITIONS").setResultsName("DEFINITIONS")
 BEGIN = Literal("BEGIN").setResultsName("BEGIN")
 END = Literal("END").setResultsName("END")
diff --git a/asn1PERser/asn_definitions/type_def.py b/asn1PERser/asn_definitions/type_def.py
index 3911105..010b6d1 100644
--- a/asn1PERser/asn_definitions/type_def.py
+++ b/asn1PERser/asn_definitions/type_def.py
@@ -11,7 +11,7 @@ from .lexical_items import identifier, LEFT_CURLY_BRACKET, RIGHT_CURLY_BRACKET,
     LEFT_PARENTHESIS, RIGHT_PARENTHESIS, EXCLAMATION_MARK, COLON, \
     CIRCUMFLEX_ACCENT, VERTICAL_LINE, LESS_THAN_SIGN, rangeseparator, \
     ellipsis, number, LEFT_SQUARE_BRACKET, RIGHT_SQUARE_BRACKET, \
-    encodingreference, modulereference, typereference, FULL_STOP
+    encodingreference, modulereference, typereference, FULL_STOP, reserved_words
 from .value_def import Value
 
 
@@ -23,11 +23,11 @@ BOOLEAN = Literal("BOOLEAN")
 INTEGER = Literal("INTEGER")
 OPTIONAL = Literal("OPTIONAL")
 DEFAULT = Literal("DEFAULT")
-COMPONENTS_OF = Literal("COMPONENTS OF")
-BIT_STRING = Literal("BIT STRING")
+COMPONENTS_OF = reserved_words("COMPONENTS OF")
+BIT_STRING = reserved_words("BIT STRING")
 ENUMERATED = Literal("ENUMERATED")
 SEQUENCE = Literal("SEQUENCE")
-SEQUENCE_OF = Literal("SEQUENCE OF")
+SEQUENCE_OF = reserved_words("SEQUENCE OF")
 CHOICE = Literal("CHOICE")
 SET = Literal("SET")
 OF = Literal("OF")
@@ -163,7 +163,7 @@ BitStringType = Or([
 
 
 # 23.1
-OctetStringType = Literal("OCTET STRING").setParseAction(parse_OctetStringType)
+OctetStringType = reserved_words("OCTET STRING").addParseAction(parse_OctetStringType)
 
 
 # 24.1
-- 
2.43.0

