From 4f2460b29afb589f59d0d2de156bce5b91f5432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 01/47] fix: unpack 8-byte float fields (format 'd', not 'q')

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0194088..d5d123f 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -165,7 +165,7 @@ def unpack_float(buffer, **kwargs):
 
 STRUCT_FLOAT_UNPACKERS = {
     4: keep_kwargs_partial(unpack_struct_float, format_char='f'),
-    8: keep_kwargs_partial(unpack_struct_float, format_char='q')
+    8: keep_kwargs_partial(unpack_struct_float, format_char='d')
 }
 
 
-- 
2.43.0


From 92cc45adf0d536f1fd08b46e0e759c846f1a0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 02/47] fix: assign the set_after_unpack value to the field

---
 src/infi/instruct/buffer/field_reference_builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 48fc8be..5155031 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -224,14 +224,15 @@ class FieldReferenceBuilder(object):
 
     def set_field_unpack_value_ref(self):
         field_unpack_ref = FieldUnpackerReference(self.field.unpack_ref)
-        if self.set_after_unpack is not None:
-            if not isinstance(self.set_after_unpack, Reference):
-                unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
+        if self.set_after_unpack is None:
+            unpack_value_ref = field_unpack_ref
+        elif isinstance(self.set_after_unpack, Reference):
+            unpack_value_ref = self.set_after_unpack
         else:
-            unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref, self.field.attr_name_ref,
-                                                   field_unpack_ref)
+            unpack_value_ref = FuncCallReference(self.numeric, self.set_after_unpack, field_unpack_ref)
 
-        self.field.unpack_value_ref = unpack_value_ref
+        self.field.unpack_value_ref = AssignAttrReference(self.numeric, self.get_obj_from_ctx_ref,
+                                                          self.field.attr_name_ref, unpack_value_ref)
 
     def set_field_unpack_after(self):
         if self.unpack_after is None:
-- 
2.43.0


From 4c2827a53fe945a54433b0dbcee94028840bbe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 03/47] fix: total size on pack ignores fields whose pack_if is
 false

---
 src/infi/instruct/buffer/reference/total_size.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 160d9dc..83c1b01 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -16,7 +16,7 @@ class TotalSizeReference(Reference):
             return size
 
         if ctx.is_pack():
-            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields]
+            lists = [field.pack_absolute_position_ref.deref(ctx) for field in ctx.fields if field.pack_if.deref(ctx)]
             positions = SequentialRangeList(itertools.chain(*lists))
             result = positions.max_stop()  # total_size calculation
         else:
-- 
2.43.0


From 24cb996a4821ab326b8e60383fd81d24b951a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:45 +0000
Subject: [PATCH 04/47] fix: VarSizeString default padding must be bytes

---
 src/infi/instruct/string_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/string_macros.py b/src/infi/instruct/string_macros.py
index 3309aca..0b68149 100644
--- a/src/infi/instruct/string_macros.py
+++ b/src/infi/instruct/string_macros.py
@@ -6,7 +6,7 @@ def PaddedString(name, size, padding=b"\x00", padding_direction=PADDING_DIRECTIO
         assert len(default) <= size
     return Field(name, PaddedStringMarshal(size, padding, padding_direction), default)
 
-def VarSizeString(name, size_marshal, padding="\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
+def VarSizeString(name, size_marshal, padding=b"\x00", padding_direction=PADDING_DIRECTION_RIGHT, default=None):
     return Field(name, VarSizeStringMarshal(size_marshal, padding, padding_direction), default)
 
 # Backward compatibility
-- 
2.43.0


From 63215f06461165e5833da0e2e0542f072eaa2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 05/47] fix: SumSizeArray on streams without tell()

---
 src/infi/instruct/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index ca176ba..1a44447 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -59,7 +59,7 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
             element_size = stream.tell() if has_tell else 0
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(elemen)
+            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From b1c540b8b5b03cca6240c5fe29c2b12d8f38b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 06/47] fix: buffer_field keeps its type when byte_size is
 given

---
 src/infi/instruct/buffer/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9159fa0..9db06dd 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -276,7 +276,7 @@ def buffer_field(type,
                                     default=default)
     marshal_kwargs = dict(type=type)
     if byte_size:
-        marshal_kwargs = dict(byte_size=byte_size)
+        marshal_kwargs['byte_size'] = byte_size
     builder.set_packer(pack_buffer, **marshal_kwargs)
     unpack = unpack_selector_decorator(unpack_selector) if unpack_selector else unpack_buffer
     builder.set_unpacker(unpack, **marshal_kwargs)
-- 
2.43.0


From e75c9330e8c2ee544fb9bd21c6beb3f64f9e70f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 07/47] fix: str_type in lists - bytes padding, and consume
 only the element's own size

---
 src/infi/instruct/buffer/macros.py    | 2 +-
 src/infi/instruct/buffer/serialize.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9db06dd..9bb7803 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -67,7 +67,7 @@ self_ref = SelfProxy()
 input_buffer_length = InputBufferLengthReference()
 
 
-def str_type_factory(encoding='ascii', padding=' ', strip='\x00', justify='left', byte_size=None):
+def str_type_factory(encoding='ascii', padding=b' ', strip=b'\x00', justify='left', byte_size=None):
     kwargs = dict(encoding=encoding, padding=padding, strip=strip, justify=justify)
     if byte_size:
         kwargs['byte_size'] = byte_size
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index d5d123f..0c10c79 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -216,7 +216,7 @@ def unpack_str(buffer, **kwargs):
         else:  # center
             value = value.strip(strip).strip(padding)
     value = value.decode(args['encoding'])
-    return value, len(buffer)
+    return value, byte_size if byte_size is not None else len(buffer)
 
 
 def pack_json(value, **kwargs):
-- 
2.43.0


From 486bb0f24a3b05e879fb605e4c43708435cd96f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 08/47] fix: byte_size, calc_byte_size and repr of Buffer
 subclasses cover inherited fields

---
 src/infi/instruct/buffer/buffer.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 895710a..315eb79 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -62,8 +62,9 @@ class BufferType(type):
                 attr.init(attr_name)
                 fields.append(attr)
 
-        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs else cls.calc_byte_size(name, fields))
         setattr(new_cls, '__fields__', fields)
+        setattr(new_cls, 'byte_size', attrs['byte_size'] if 'byte_size' in attrs
+                else cls.calc_byte_size(name, new_cls._all_fields()))
         return new_cls
 
     @classmethod
@@ -150,20 +151,20 @@ class Buffer(object):
         Returns this instance's size. If the size has to be calculated it may require packing some of the fields.
         """
         if ctx is None:
-            ctx = PackContext(self, type(self).__fields__)
+            ctx = PackContext(self, self._all_fields())
         return TotalSizeReference().deref(ctx)
 
-    def _all_fields(self):
+    @classmethod
+    def _all_fields(cls):
         fields = []
-        for cls in type(self).mro():
-            cls_fields = getattr(cls, '__fields__', [])
-            fields.extend(cls_fields)
+        for base in cls.mro():
+            fields.extend(base.__dict__.get('__fields__', []))
         return fields
 
     def _all_field_names(self):
         return set(field.attr_name() for field in self._all_fields())
 
     def __repr__(self):
-        fields = type(self).__fields__
+        fields = self._all_fields()
         repr_fields = ["{0}={1!r}".format(field.attr_name(), getattr(self, field.attr_name())) for field in fields]
         return "{0}.{1}({2})".format(type(self).__module__, type(self).__name__, ", ".join(repr_fields))
-- 
2.43.0


From 3e07947b09c2113e8fb63fe5e07f289546556e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 09/47] fix: Buffer instances do not share a mutable field
 default

---
 src/infi/instruct/buffer/buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/buffer.py b/src/infi/instruct/buffer/buffer.py
index 315eb79..2fe5aa2 100644
--- a/src/infi/instruct/buffer/buffer.py
+++ b/src/infi/instruct/buffer/buffer.py
@@ -1,3 +1,4 @@
+import copy
 import math
 import itertools
 from six import add_metaclass
@@ -98,7 +99,7 @@ class Buffer(object):
         # Set to default all fields that don't have a value (we know that since they're still FieldReference objects)
         for field in self._all_fields():
             if isinstance(getattr(self, field.attr_name()), FieldReference):
-                setattr(self, field.attr_name(), field.default)
+                setattr(self, field.attr_name(), copy.deepcopy(field.default))
 
     def pack(self):
         """Packs the object and returns a buffer representing the packed object."""
-- 
2.43.0


From 072d3eed5e99952c851406317cc29bf5792d497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 10/47] fix: Struct instances do not share a mutable (nested)
 field default

---
 src/infi/instruct/struct/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 7e08aab..426aab9 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -1,3 +1,4 @@
+import copy
 from array import array
 from .._compat import StringIO, PY2
 from six import add_metaclass
@@ -5,9 +6,6 @@ from six import add_metaclass
 from ..base import MarshalBase, WritableContext, EMPTY_CONTEXT, ZERO_MIN_MAX
 from ..errors import StructNotWellDefinedError
 
-def copy_if_supported(obj):
-    return obj.copy() if hasattr(obj, 'copy') else obj
-
 class FieldMarshal(MarshalBase):
     def prepare_class(self, cls):
         pass
@@ -64,7 +62,7 @@ class Field(FieldBase):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
         elif not hasattr(obj, self.name):
-            setattr(obj, self.name, copy_if_supported(self.default))
+            setattr(obj, self.name, copy.deepcopy(self.default))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s=%s" % (self.name, super(Field, self).to_repr(obj, context))
-- 
2.43.0


From 6d15440c80362c3a6ac6d20789716c6c211a638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 11/47] fix: PaddedString honours its padding direction and
 rejects values that do not fit

---
 src/infi/instruct/string.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index 21e88a5..a9e41fa 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,6 +1,5 @@
 from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
 from .errors import InstructError, InvalidValueError
-from ._compat import pad
 
 PADDING_DIRECTION_NONE  = 0
 PADDING_DIRECTION_RIGHT = 1
@@ -25,9 +24,9 @@ def _pad(obj, size, dir, padding):
         return obj
 
     if dir == PADDING_DIRECTION_RIGHT or dir == PADDING_DIRECTION_BOTH:
-        return obj + padding[0] * pad_len
+        return obj + padding[0:1] * pad_len
     elif dir == PADDING_DIRECTION_LEFT:
-        return (padding[0] * pad_len) + obj
+        return (padding[0:1] * pad_len) + obj
     else:
         # PADDING_DIRECTION_NONE
         raise InvalidValueError("no padding specified but item length %d is smaller than required length %d (item=%s)" %
@@ -69,9 +68,7 @@ class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         stripped_obj = _strip(obj, self.padding_direction, self.padding)
-        stream.write(stripped_obj)
-        if len(stripped_obj) < self.size:
-            stream.write(pad(self.padding[0], (self.size - len(stripped_obj))))
+        stream.write(_pad(stripped_obj, self.size, self.padding_direction, self.padding))
 
 class VarSizeBufferMarshal(VarSizeStringMarshal):
     def __init__(self, size_marshal):
-- 
2.43.0


From 1e23e0dac9f9859febf89c46011979bda06a14b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 12/47] fix: the context of a nested Struct refers to the
 nested struct

---
 src/infi/instruct/struct/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 426aab9..d73710f 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -218,8 +218,10 @@ class Struct(object):
         if hasattr(cls, '_context_'):
             new_context = WritableContext(cls._context_.copy())
         else:
-            new_context = WritableContext(dict(struct=obj))
+            new_context = WritableContext()
         new_context.update(context.get_dict())
+        # A nested struct's context refers to that struct and not to the one that contains it.
+        new_context.put('struct', obj)
         return new_context
 
     def to_bytes(self):
-- 
2.43.0


From b62ae74ab3741318023a25d23fb4663911b034da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 13/47] fix: StructSelector uses its mapping; its size bounds
 are the min/max over the candidates

---
 src/infi/instruct/struct/selector.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/selector.py b/src/infi/instruct/struct/selector.py
index 8d913ca..f1e30ef 100644
--- a/src/infi/instruct/struct/selector.py
+++ b/src/infi/instruct/struct/selector.py
@@ -12,14 +12,16 @@ class StructSelectorMarshal(Marshal):
         self.mapping = {}
         self.default = default
 
-        for key, struct in self.mapping:
-            if not isinstance(struct, Struct):
+        for key, struct in mapping.items():
+            if not issubclass(struct, Struct):
                 raise ValueError("mapping key %s must be a subclass of Struct" % key)
             self.mapping[key] = struct
 
         structs = values_list(mapping) + ([self.default] if self.default is not None else [])
 
-        self.min_max_size = sum([struct.min_max_sizeof() for struct in structs], ZERO_MIN_MAX)
+        # Any one of the structs may be selected, so the bounds are the smallest and the biggest of them.
+        min_max_sizes = [struct.min_max_sizeof() for struct in structs] or [ZERO_MIN_MAX]
+        self.min_max_size = MinMax(min(size.min for size in min_max_sizes), max(size.max for size in min_max_sizes))
 
     def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
         type(obj).write_to_stream(obj, stream, context)
@@ -74,7 +76,7 @@ class FuncStructSelectorMarshal(Marshal):
         result = reader.create_from_stream(rstream, context, *args, **kwargs)
         if not rstream.is_read_ahead_empty():
             raise InstructError("deserialized object %s but still have bytes in read-ahead buffer" %
-                                (result.to_repr(context),))
+                                (self.to_repr(result, context),))
         return result
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-- 
2.43.0


From 1758e22a2e955d23fba2229d1c1a82a9f635db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:32 +0000
Subject: [PATCH 14/47] fix: ConstField with a Struct or a float32 value
 accepts its own serialization

---
 src/infi/instruct/struct/const.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 07dbad5..7c6be69 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -1,4 +1,4 @@
-from . import Field
+from . import Field, Struct
 from ..base import EMPTY_CONTEXT
 from ..errors import InstructError
 
@@ -17,11 +17,18 @@ class ConstField(Field):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         value = self.marshal.create_from_stream(stream, context, *args, **kwargs)
-        if value != self.value:
+        if not self._is_const_value(value, context):
             raise InstructError("constant field %s of class %s should have the value %s but instead got %s" %
                                 (self.name, type(obj), self.marshal.to_repr(self.value, context),
                                  self.marshal.to_repr(value, context)))
 
+    def _is_const_value(self, value, context):
+        if isinstance(self.value, (Struct, float)):
+            # Structs have no equality of their own and a float may lose precision, so we compare what is serialized.
+            return (self.marshal.write_to_string(value, context) ==
+                    self.marshal.write_to_string(self.value, context))
+        return value == self.value
+
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "%s (const)" % super(ConstField, self).to_repr(obj, context)
 
-- 
2.43.0


From 538c60d325a396de047807232960534e2496e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 15/47] fix: FixedSizeArray refuses to write a list of another
 length

---
 src/infi/instruct/array.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 1a44447..6dc79eb 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,4 +1,5 @@
 from ._compat import range
+from .errors import InvalidValueError
 from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
 
 class ArrayBase(object):
@@ -41,6 +42,12 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         super(FixedSizeArrayMarshal, self).__init__(ConstReader(size), element_marshal)
         self.size = size
 
+    def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
+        if len(obj) != self.size:
+            raise InvalidValueError("fixed-size array is expected to have %d elements but instead got %d" %
+                                    (self.size, len(obj)))
+        super(FixedSizeArrayMarshal, self).write_to_stream(obj, stream, context)
+
     def min_max_sizeof(self):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
-- 
2.43.0


From af47766b6c4a288b415ec2a7876d99cd3e52d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 16/47] fix: strings and arrays whose size is read elsewhere
 are not fixed-size

---
 src/infi/instruct/array.py  | 5 ++++-
 src/infi/instruct/string.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 6dc79eb..9b517ce 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -1,6 +1,6 @@
 from ._compat import range
 from .errors import InvalidValueError
-from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer
+from .base import Marshal, ConstReader, EMPTY_CONTEXT, MinMax, FixedSizer, UNBOUNDED_MIN_MAX
 
 class ArrayBase(object):
     def to_repr(self, obj, context=EMPTY_CONTEXT):
@@ -13,6 +13,9 @@ class ArrayBase(object):
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
         element_min_max = self.element_marshal.min_max_sizeof()
+        if size_min_max.max == 0:
+            # The size isn't serialized here (e.g. it's read from another field), so it may be anything.
+            return UNBOUNDED_MIN_MAX
         return MinMax(size_min_max.min,
                       size_min_max.max + self._approx_max_elements_by_size_bits() * element_min_max.max)
 
diff --git a/src/infi/instruct/string.py b/src/infi/instruct/string.py
index a9e41fa..61a244f 100644
--- a/src/infi/instruct/string.py
+++ b/src/infi/instruct/string.py
@@ -1,4 +1,4 @@
-from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax
+from .base import Marshal, ConstReader, FixedSizer, EMPTY_CONTEXT, MinMax, UNBOUNDED_MIN_MAX
 from .errors import InstructError, InvalidValueError
 
 PADDING_DIRECTION_NONE  = 0
@@ -59,6 +59,9 @@ class VarSizeStringMarshal(Marshal):
 
     def min_max_sizeof(self):
         size_min_max = self.size_marshal.min_max_sizeof()
+        if size_min_max.max == 0:
+            # The size isn't serialized here (e.g. it's read from another field), so it may be anything.
+            return UNBOUNDED_MIN_MAX
         return MinMax(size_min_max.min, size_min_max.max + (1 << (size_min_max.max * 8)) - 1)
 
 class PaddedStringMarshal(FixedSizer, VarSizeStringMarshal):
-- 
2.43.0


From e0c5f71c775fdee24b7c0128a959162c90798fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 17/47] fix: repr of a Struct with fields that are not set

---
 src/infi/instruct/struct/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index d73710f..8b8532e 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -31,7 +31,13 @@ class FieldBase(FieldMarshal):
         self.set_value(obj, self.marshal.create_from_stream(stream, context, *args, **kwargs))
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
-        return self.marshal.to_repr(self.get_value(obj), context)
+        value = self.get_value(obj)
+        if value is None:
+            return self.unset_to_repr(context)
+        return self.marshal.to_repr(value, context)
+
+    def unset_to_repr(self, context=EMPTY_CONTEXT):
+        return "<not set>"
 
     def sizeof(self, obj):
         return self.marshal.sizeof(self.get_value(obj))
@@ -49,6 +55,10 @@ class AnonymousField(FieldBase):
     def __init__(self, marshal):
         super(AnonymousField, self).__init__(marshal)
 
+    def unset_to_repr(self, context=EMPTY_CONTEXT):
+        # An anonymous field never has a value.
+        return self.marshal.to_repr(None, context)
+
     def __str__(self):
         return "anonymous field"
 
-- 
2.43.0


From 57566871be97d4bcf7d2b7c5934f594832f2b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 18/47] fix: fields in a Lazy container get their default value

---
 src/infi/instruct/struct/lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 0a820c2..e5533e0 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -1,3 +1,5 @@
+import copy
+
 from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer
@@ -5,7 +7,7 @@ from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
     def __init__(self, container, field):
-        super(LazyField, self).__init__(field.name, field.default, field.marshal)
+        super(LazyField, self).__init__(field.name, field.marshal, field.default)
         self.container = container
         self.field = field
 
@@ -15,6 +17,8 @@ class LazyField(Field):
     def prepare_instance(self, obj, args, kwargs):
         if self.name in kwargs:
             setattr(obj, self.name, kwargs.pop(self.name))
+        elif self.name not in obj.__dict__:
+            setattr(obj, self.name, copy.deepcopy(self.default))
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.field.write_fields(obj, stream, context)
-- 
2.43.0


From 1ca87254f8464d40d0518095bac87c0b5ce02520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 19/47] fix: bit fields and constants inside a Lazy container
 are decoded like its other fields

---
 src/infi/instruct/struct/lazy.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index e5533e0..4f213ab 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -3,6 +3,7 @@ import copy
 from .._compat import StringIO
 
 from . import FieldBase, Field, FieldListContainer
+from .const import ConstField
 from ..base import FixedSizer, EMPTY_CONTEXT
 
 class LazyField(Field):
@@ -51,16 +52,23 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         for field in fields:
             if not field.is_fixed_size():
                 raise ValueError("%s must be a fixed-size field inside a lazy container" % (field,))
-            if isinstance(field, Field):
-                new_fields.append(LazyField(self, field))
-            else:
-                new_fields.append(field)
+            new_fields.append(self._make_lazy(field))
 
         super(LazyFieldListContainer, self).__init__(new_fields)
 
         self.size = sum([field.min_max_sizeof().min for field in self.fields])
         self.lazy_key = "_lazy_container_%s" % id(self)
 
+    def _make_lazy(self, field):
+        if isinstance(field, ConstField):
+            return field  # Always has its value, reading it doesn't depend on the data.
+        if isinstance(field, Field):
+            return LazyField(self, field)
+        if isinstance(field, FieldListContainer):
+            field = copy.copy(field)
+            field.fields = [self._make_lazy(inner_field) for inner_field in field.fields]
+        return field
+
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
         super(LazyFieldListContainer, self).write_fields(obj, stream)
-- 
2.43.0


From 241cf73400cdba7291b9d74d74d2061a977806aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 20/47] fix: Lazy container passes the context when writing

---
 src/infi/instruct/struct/lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 4f213ab..89ecb51 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -71,7 +71,7 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def write_fields(self, obj, stream, context=EMPTY_CONTEXT):
         self.instantiate_if_needed(obj)
-        super(LazyFieldListContainer, self).write_fields(obj, stream)
+        super(LazyFieldListContainer, self).write_fields(obj, stream, context)
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
-- 
2.43.0


From 1e70063d653fcf77db61561a7660ccb1c4b68d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 21/47] fix: Lazy container reports missing or invalid data
 instead of exposing unread fields

---
 src/infi/instruct/struct/lazy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/lazy.py b/src/infi/instruct/struct/lazy.py
index 89ecb51..e651032 100644
--- a/src/infi/instruct/struct/lazy.py
+++ b/src/infi/instruct/struct/lazy.py
@@ -5,6 +5,7 @@ from .._compat import StringIO
 from . import FieldBase, Field, FieldListContainer
 from .const import ConstField
 from ..base import FixedSizer, EMPTY_CONTEXT
+from ..errors import NotEnoughDataError
 
 class LazyField(Field):
     def __init__(self, container, field):
@@ -75,6 +76,8 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
         data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
         setattr(obj, self.lazy_key, dict(data=data, context=context, args=args, kwargs=kwargs))
 
     def is_instantiated(self, obj):
@@ -90,5 +93,10 @@ class LazyFieldListContainer(FixedSizer, FieldListContainer):
         # We first delete the lazy key so it'll return "instantiated" when the field descriptors are called.
         delattr(obj, self.lazy_key)
 
-        super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
-                                                        **params['kwargs'])
+        try:
+            super(LazyFieldListContainer, self).read_fields(obj, stream, params['context'], *params['args'],
+                                                            **params['kwargs'])
+        except:
+            # Still not instantiated, otherwise the next access will silently get a value that wasn't read.
+            setattr(obj, self.lazy_key, params)
+            raise
-- 
2.43.0


From ec9f4286bcf634e9783ce1e5ee1984f37438821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 22/47] fix: big endian integers of 3, 5, 6, 7 or more than 8
 bytes

---
 src/infi/instruct/buffer/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 0c10c79..693fe74 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -52,10 +52,17 @@ ENDIAN_NAME_TO_FORMAT = {'unspecified': '@', 'native': '=', 'big': '>', 'little'
 #
 
 
+def is_big_endian_bit_int(byte_size, kwargs):
+    # Byte order is meaningful only if the integer is made of whole bytes.
+    return kwargs.get("endian") == "big" and byte_size == int(byte_size)
+
+
 def pack_bit_int(value, byte_size, **kwargs):
     assert byte_size is not None
     result = BitAwareByteArray(bytearray(int(math.ceil(byte_size))), 0, byte_size)
     result[0:] = value
+    if is_big_endian_bit_int(byte_size, kwargs):
+        result = BitAwareByteArray(bytearray(reversed(result)))
     return result
 
 
@@ -90,7 +97,7 @@ def pack_int(value, **kwargs):
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
     result = 0
-    l = reversed(buffer[0:byte_size]) if kwargs.get("endian", "big") else buffer[0:byte_size]
+    l = buffer[0:byte_size] if is_big_endian_bit_int(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
         result *= 256
         result += b
-- 
2.43.0


From afa91f703b95ddfd4fdae098ab4c26a391925648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 23/47] fix: integers of other than 1, 2, 4 or 8 bytes are not
 unpacked from too little data

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 693fe74..1d010a3 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -96,6 +96,8 @@ def pack_int(value, **kwargs):
 
 
 def unpack_bit_int(buffer, byte_size, **kwargs):
+    if buffer.length() < byte_size:
+        raise ValueError("int byte_size is {0} but got buffer with length {1}".format(byte_size, buffer.length()))
     result = 0
     l = buffer[0:byte_size] if is_big_endian_bit_int(byte_size, kwargs) else reversed(buffer[0:byte_size])
     for b in l:
-- 
2.43.0


From 35b5c9accb69fd8f505d6e2c71e5581ef75eb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:27 +0000
Subject: [PATCH 24/47] fix: negative int assigned to a bit range raises
 instead of corrupting its neighbours

---
 src/infi/instruct/buffer/io_buffer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index e2ce9b3..31508d1 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -258,6 +258,8 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
             value_len = len(value)
         elif isinstance(value, integer_types):
             # Short circuit: make bit ranges accept int values by their bit length.
+            if value < 0:
+                raise ValueError("trying to assign negative int {0} to a bit range".format(value))
             bit_length = max(1, value.bit_length())
             if bit_length > int_value_len * 8:
                 # Safety measure for short circuit: if user is assigning an int with more bits than the range of
-- 
2.43.0


From f5da8a64fb4880fc638212d84430cbe1788dbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:30 +0000
Subject: [PATCH 25/47] fix: int assigned to a bit range clears the range's
 high bytes

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 31508d1..72f1569 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -267,11 +267,11 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
                 raise ValueError("trying to assign int {0} with bit length {1} to bit length {2}".format(value,
                                  bit_length, int(int_value_len * 8)))
             l = []
-            for n in range(0, bit_length, 8):
+            value_len = max(float(bit_length) / 8, int_value_len)
+            for n in range(0, int(value_len * 8), 8):
                 l.append(value % 256)
                 value //= 256
             value = l
-            value_len = max(float(bit_length) / 8, int_value_len)
         else:
             raise TypeError("value must be iterable or int")
         return value, value_len
-- 
2.43.0


From 353c21c4ae7916a6caf4b8d38e866a5cbb342b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 26/47] fix: BitView.to_bytearray masks the bits after a
 fractional stop

---
 src/infi/instruct/buffer/io_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 72f1569..493e5ed 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -62,8 +62,8 @@ class BitView(abc.Sequence):
         return "".join(str(n) for n in reversed(result))
 
     def to_bytearray(self):
-        if int(self.start) == self.start:
-            return self.buffer[int(self.start):int(math.ceil(self.stop))]
+        if int(self.start) == self.start and int(self.stop) == self.stop:
+            return bytearray(self.buffer[int(self.start):int(self.stop)])
         else:
             return bytearray(list(self))  # very inefficient.
 
-- 
2.43.0


From 0d88c57228e59b80a7c900802485c97d3e7a4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 27/47] fix: unpacking an unlimited list of empty elements
 raises instead of looping forever

---
 src/infi/instruct/buffer/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 1d010a3..7c441b8 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -305,6 +305,8 @@ def unpack_list(buffer, elem_unpacker, **kwargs):
     while offset < buffer.length() and (n is None or index < n):
         unpacker_kwargs = copy_and_remove_kwargs(kwargs, ('buffer', 'n', 'index', 'container'))
         item, item_len = elem_unpacker(buffer[offset:byte_size], index=index, n=n, container=result, **unpacker_kwargs)
+        if n is None and not item_len > 0:
+            raise ValueError("list element {0!r} is empty so the list has no end".format(item))
         result.append(item)
         offset += item_len
         index += 1
-- 
2.43.0


From 0d2d7d75529c295dcdbca2e526aa375061f754b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 28/47] fix: an empty range overlaps nothing

---
 src/infi/instruct/buffer/range.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 312fe5e..f499968 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -87,9 +87,9 @@ class SequentialRange(SequentialRangeMixin):
         :returns: True if there's an overlap (non-empty intersection) between two ranges
         :rtype: bool
         """
-        a, b = (self, other) if self.start <= other.start else (other, self)
-        a_imag_stop = a.to_closed(sys.maxsize).stop
-        return a_imag_stop > b.start
+        a_stop = self.to_closed(sys.maxsize).stop
+        b_stop = other.to_closed(sys.maxsize).stop
+        return max(self.start, other.start) < min(a_stop, b_stop)
 
     def contains(self, point):
         """
-- 
2.43.0


From ab20fa87f88af9c377a28c8469eeada6eaec5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:21 +0000
Subject: [PATCH 29/47] fix: has_overlaps finds every overlap (ranges are
 totally ordered, empty ones skipped)

---
 src/infi/instruct/buffer/range.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index f499968..951c946 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -104,7 +104,8 @@ class SequentialRange(SequentialRangeMixin):
         return self.start == other.start and self.stop == other.stop
 
     def __lt__(self, other):
-        return self.start < other.start and self.to_closed(sys.maxsize).stop < other.to_closed(sys.maxsize).stop
+        return ((self.start, self.to_closed(sys.maxsize).stop) <
+                (other.start, other.to_closed(sys.maxsize).stop))
 
     def __repr__(self):
         return "SequentialRange(start={0!r}, stop={1!r})".format(self.start, self.stop)
@@ -138,7 +139,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
         :returns: True if one or more range in the list overlaps with another
         :rtype: bool
         """
-        sorted_list = sorted(self)
+        sorted_list = sorted(r for r in self if r.is_open() or r.byte_length() > 0)
         for i in range(0, len(sorted_list) - 1):
             if sorted_list[i].overlaps(sorted_list[i + 1]):
                 return True
-- 
2.43.0


From 4f91e680d89946409a4d5b7175ec061d4ee41a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 30/47] fix: BitAwareByteArray insert, delete and zero fill of
 fractional bytes

---
 src/infi/instruct/buffer/io_buffer.py | 61 +++++++++------------------
 1 file changed, 20 insertions(+), 41 deletions(-)

diff --git a/src/infi/instruct/buffer/io_buffer.py b/src/infi/instruct/buffer/io_buffer.py
index 493e5ed..1c8f9cd 100644
--- a/src/infi/instruct/buffer/io_buffer.py
+++ b/src/infi/instruct/buffer/io_buffer.py
@@ -189,51 +189,30 @@ class BitAwareByteArray(BitView, abc.MutableSequence):
 
     def _del_range(self, start, stop):
         assert stop >= start
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can remove whole bytes from the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            del self.buffer[start_byte:stop_byte]
-            self.stop -= whole_byte_delta
-            stop -= whole_byte_delta
-
-        # Here we have at most 8 bits to remove, so we need to "shift" the entire array.
-        if stop > start:
-            ofs = start
-            bit_len_frac = stop - start
-            while (ofs + bit_len_frac) < self.stop:
-                self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs + bit_len_frac, 8))
-                ofs += 1
-            self.stop -= bit_len_frac
-            if int(math.ceil(self.stop)) < len(self.buffer):
-                del self.buffer[-1]
+        tail = self._copy_bytes(stop, self.stop)
+        tail_len = self.stop - stop
+        self.stop -= stop - start
+        self._copy_to_range(start, tail, tail_len)
+        del self.buffer[int(math.ceil(self.stop)):]
 
     def _insert_zeros(self, start, stop):
         assert start >= 0 and start <= stop, "start={0!r}, stop={1!r}".format(start, stop)
         assert start <= self.stop
-        start_byte, stop_byte = int(math.ceil(start)), int(math.floor(stop))
-        whole_byte_delta = stop_byte - start_byte
-
-        # If we can insert whole bytes to the buffer, we'll do that first.
-        if whole_byte_delta >= 1:
-            self.buffer[start_byte:start_byte] = bytearray(whole_byte_delta)
-            self.stop += whole_byte_delta
-            stop -= whole_byte_delta
-
-        if stop > start:
-            assert stop - start <= 2, "start={0}, stop={1}".format(start, stop)
-            bit_len_frac = stop - start
-            while int(math.ceil(self.stop + bit_len_frac)) > len(self.buffer):
-                self.buffer.append(0)
-
-            if start < self.stop:
-                # Inserting in the middle, so we copy from end to start.
-                ofs = self.stop + bit_len_frac - 1
-                while ofs >= start:
-                    self._set_byte_bits(ofs, 8, self._get_byte_bits(ofs - bit_len_frac, 8))
-                    ofs -= 1
-            self.stop += bit_len_frac
+        tail = self._copy_bytes(start, self.stop)
+        tail_len = self.stop - start
+        self.stop += stop - start
+
+        missing_bytes = int(math.ceil(self.stop)) - len(self.buffer)
+        if missing_bytes > 0:
+            self.buffer.extend(bytearray(missing_bytes))
+
+        self._copy_to_range(start, bytearray(int(math.ceil(stop - start))), stop - start)
+        self._copy_to_range(stop, tail, tail_len)
+
+    def _copy_bytes(self, start, stop):
+        """Returns the bits in [start, stop) ('buffer' coordinates) as bytes, the last one may have less than 8 bits."""
+        return [self._get_byte_bits(start + i, min(8, int((stop - start - i) * 8)))
+                for i in range(int(math.ceil(stop - start)))]
 
     def _set_byte_bits(self, ofs, bit_len, value):
         byte_ofs, bit_ofs = float_to_byte_bit_pair(ofs)
-- 
2.43.0


From 4ae38fa34a0a001422e034410d1f1bb4b1ab5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 31/47] fix: nested buffers of a fractional byte size take
 whole bytes when unpacked, as when packed

---
 src/infi/instruct/buffer/macros.py    | 3 ++-
 src/infi/instruct/buffer/serialize.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/buffer/macros.py b/src/infi/instruct/buffer/macros.py
index 9bb7803..12b3b06 100644
--- a/src/infi/instruct/buffer/macros.py
+++ b/src/infi/instruct/buffer/macros.py
@@ -1,3 +1,4 @@
+import math
 from functools import partial
 from infi.instruct.utils.kwargs import keep_kwargs_partial
 from infi.instruct.utils.safe_repr import safe_repr
@@ -240,7 +241,7 @@ def unpack_selector_decorator(selector):
         o = selector(obj, buffer, *args, **kwargs)
         if isinstance(o, BufferType):
             result = o()
-            byte_size = result.unpack(buffer)
+            byte_size = int(math.ceil(result.unpack(buffer)))
             return result, byte_size
         elif isinstance(o, (list, tuple)):
             assert len(o) == 2, "selector returned a list but not a (obj, byte_size)-kind of list"
diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 7c441b8..80a6bb0 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -262,7 +262,8 @@ def pack_buffer(value, **kwargs):
 
 def unpack_buffer(buffer, **kwargs):
     obj = kwargs['type']()
-    byte_size = obj.unpack(buffer)
+    # Packing a buffer always results in whole bytes, even if its last byte isn't fully used.
+    byte_size = int(math.ceil(obj.unpack(buffer)))
     return obj, byte_size
 
 
-- 
2.43.0


From 9c54d24d0a9dbc2eb63d281b758f63123b3ecf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 32/47] fix: bytearray field on a range of fractional bytes in
 a buffer without a static size

---
 src/infi/instruct/buffer/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index 80a6bb0..c2213f4 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -247,7 +247,7 @@ def unpack_bytearray(buffer, **kwargs):
         return buffer, len(buffer)
     elif isinstance(buffer, BitView):
         result = buffer.to_bytearray()
-        return result, len(result)
+        return result, buffer.length()
     return bytearray(buffer), len(buffer)
 
 
-- 
2.43.0


From 09d9cdd4f66ca2fe4f349e8cca1716b600cf884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:41 +0000
Subject: [PATCH 33/47] fix: bit ranges that cross from one range of their
 parent to the next, or have an open end

---
 src/infi/instruct/buffer/range.py           |  2 +-
 src/infi/instruct/buffer/reference/range.py | 43 +++++++++------------
 2 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 951c946..4848e99 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -183,7 +183,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
-            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) <= 0):
+            if self[i].is_open() or ((point - sum_length - self[i].byte_length()) < 0):
                 return i, sum_length
             sum_length += self[i].byte_length()
         return None
diff --git a/src/infi/instruct/buffer/reference/range.py b/src/infi/instruct/buffer/reference/range.py
index 3bf00cb..e7de494 100644
--- a/src/infi/instruct/buffer/reference/range.py
+++ b/src/infi/instruct/buffer/reference/range.py
@@ -118,10 +118,11 @@ class BitNumericRangeReference(BitRangeReference):
         byte_offset = float(self.ref.deref(ctx)) / 8
         assert byte_offset >= 0
 
-        i, sum_length = range_list.find_relative_container_index(byte_offset)
-        if i is None:
+        container = range_list.find_relative_container_index(byte_offset)
+        if container is None:
             raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(self.ref.deref(ctx),
                                                                                               range_list))
+        i, sum_length = container
         return SequentialRangeList([SequentialRange(byte_offset - sum_length + range_list[i].start,
                                                     byte_offset - sum_length + range_list[i].start + BIT)])
 
@@ -144,34 +145,26 @@ class BitSliceRangeReference(BitRangeReference):
         range_list = self.parent_range_ref.deref(ctx)
         assert len(range_list) >= 1
 
-        bit_range = SequentialRange(float(self.start.deref(ctx)) / 8, float(self.stop.deref(ctx)) / 8)
+        start, stop = self.start.deref(ctx), self.stop.deref(ctx)
+        bit_range = SequentialRange(float(start or 0) / 8, float(stop) / 8 if stop is not None else None)
 
-        i, sum_length = range_list.find_relative_container_index(bit_range.start)
-        if i is None:
-            raise ValueError("Bit offset {0} is out of range for range sequence {1!r}".format(
-                int(bit_range.start * 8), range_list))
-
-        if bit_range.is_open():
-            subrange_start = range_list[i].start + bit_range.start - sum_length
-            return SequentialRangeList([SequentialRange(subrange_start, range_list[i].stop)] + range_list[i + 1:])
-
-        bit_range_remaining_len = bit_range.byte_length()
         result = []
-        for i in range(i, len(range_list)):
-            r = range_list[i]
-            subrange_start = r.start + bit_range.start - sum_length
-            if r.is_open() or (r.stop - subrange_start) >= bit_range_remaining_len:
-                subrange_stop = subrange_start + bit_range_remaining_len
+        range_offset = 0  # where the current range begins, relative to the parent's beginning
+        for r in range_list:
+            range_stop = None if r.is_open() else range_offset + r.byte_length()
+            if range_stop is None or bit_range.is_open():
+                stop = range_stop if bit_range.is_open() else bit_range.stop
             else:
-                subrange_stop = r.stop
-
-            result.append(SequentialRange(subrange_start, subrange_stop))
-
-            bit_range_remaining_len -= (subrange_stop - subrange_start)
-            if bit_range_remaining_len == 0:
+                stop = min(range_stop, bit_range.stop)
+            start = max(range_offset, bit_range.start)
+            if stop is None or start < stop or (start == stop == bit_range.stop and not result):
+                result.append(SequentialRange(r.start + start - range_offset,
+                                              None if stop is None else r.start + stop - range_offset))
+            range_offset = range_stop
+            if range_offset is None:
                 break
 
-        if bit_range_remaining_len > 0:
+        if range_offset is not None and range_offset < (bit_range.start if bit_range.is_open() else bit_range.stop):
             raise ValueError("Bit range {0!r} is out of range for parent range {1!r}".format(bit_range, range_list))
 
         return SequentialRangeList(result)
-- 
2.43.0


From 2048b4de1079b8d79e5be4988f642255aa23b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 34/47] fix: MinMax clips both its minimum and its maximum to
 the limits

---
 src/infi/instruct/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/base.py b/src/infi/instruct/base.py
index df34e2a..c68b429 100644
--- a/src/infi/instruct/base.py
+++ b/src/infi/instruct/base.py
@@ -72,7 +72,7 @@ class MinMax(collections.namedtuple('MinMax', 'min max')):
             min_val = min_val_or_tuple
 
         assert min_val <= max_val
-        return super(MinMax, cls).__new__(cls, max(0, min_val), min(max_val, sys.maxsize))
+        return super(MinMax, cls).__new__(cls, min(max(0, min_val), sys.maxsize), max(0, min(max_val, sys.maxsize)))
 
     def __add__(self, min_max):
         return MinMax(min_max.min + self.min, min_max.max + self.max)
-- 
2.43.0


From 15b6abe61f2842b71d8ceb8f142c31b14d85c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 35/47] fix: writing to a ReadAheadStream

---
 src/infi/instruct/utils/read_ahead_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/utils/read_ahead_stream.py b/src/infi/instruct/utils/read_ahead_stream.py
index b569d41..404d64f 100644
--- a/src/infi/instruct/utils/read_ahead_stream.py
+++ b/src/infi/instruct/utils/read_ahead_stream.py
@@ -29,6 +29,6 @@ class ReadAheadStream(object):
     def write(self, buf):
         if len(self.buffer) > 0:
             raise IOError("cannot write while there are still bytes in the read-ahead buffer")
-        if self.read_ahead:
+        if self.read_ahead_mode:
             raise IOError("cannot write while in read-ahead mode")
         return self.stream.write(buf)
-- 
2.43.0


From 36a6748ab1ae3377449b7221daf5ee076fefdccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 36/47] fix: inherited and keyword-only constructor arguments
 that are also fields

---
 src/infi/instruct/struct/__init__.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/infi/instruct/struct/__init__.py b/src/infi/instruct/struct/__init__.py
index 8b8532e..6e2e617 100644
--- a/src/infi/instruct/struct/__init__.py
+++ b/src/infi/instruct/struct/__init__.py
@@ -146,6 +146,12 @@ class StructType(type):
 
         fields.prepare_class(new_cls)
 
+        if user_init is not None:
+            # The arguments that the user's __init__ asks for. Classes that don't define it inherit both.
+            code = user_init.__code__
+            args_count = code.co_argcount + getattr(code, "co_kwonlyargcount", 0)
+            setattr(new_cls, "_user_init_args_", code.co_varnames[0:args_count])
+
         setattr(new_cls, "__init__", cls._create_struct_class_init(new_cls, user_init))
         return new_cls
 
@@ -156,16 +162,16 @@ class StructType(type):
             if type(self) == new_cls:
                 # Only do our magic if we're the bottom-most class.
                 new_cls._container_.prepare_instance(self, args, kwargs)
+            # Add arguments back if the user code wants them.
+            # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
+            # and logical_block_address is also a field in the struct, so in this scenario instruct will
+            # "eat" the arg and we need to put it back.
+            for arg in getattr(new_cls, "_user_init_args_", ()):
+                if arg in orig_kwargs:
+                    kwargs[arg] = orig_kwargs[arg]
             if user_init is None:
                 super(new_cls, self).__init__(*args, **kwargs)
             else:
-                # Add arguments back if the user code wants them.
-                # This solves STORAGEMODEL-146, because ASI defines Read10Command(logical_block_address, ...)
-                # and logical_block_address is also a field in the struct, so in this scenario instruct will
-                # "eat" the arg and we need to put it back.
-                for arg in user_init.__code__.co_varnames[0:user_init.__code__.co_argcount]:
-                    if arg in orig_kwargs:
-                        kwargs[arg] = orig_kwargs[arg]
                 user_init(self, *args, **kwargs)
         return __instance_init__
 
-- 
2.43.0


From 832a050c049c4694d99a549f7bc75add47ace9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 37/47] fix: SumSizeArray counts what its elements take on
 streams without tell()

---
 src/infi/instruct/array.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/array.py b/src/infi/instruct/array.py
index 9b517ce..6ad8940 100644
--- a/src/infi/instruct/array.py
+++ b/src/infi/instruct/array.py
@@ -55,6 +55,17 @@ class FixedSizeArrayMarshal(VarSizeArrayMarshal):
         element_min_max = self.element_marshal.min_max_sizeof()
         return MinMax(element_min_max.min * self.size, element_min_max.max * self.size)
 
+class _CountingStream(object):
+    """Reads from another stream and counts the bytes that were read."""
+    def __init__(self, stream):
+        self.stream = stream
+        self.count = 0
+
+    def read(self, size):
+        data = self.stream.read(size)
+        self.count += len(data)
+        return data
+
 class SumSizeArrayMarshal(ArrayBase, Marshal):
     def __init__(self, size_marshal, element_marshal):
         super(SumSizeArrayMarshal, self).__init__()
@@ -65,11 +76,14 @@ class SumSizeArrayMarshal(ArrayBase, Marshal):
         obj = []
         total_bytes = self.size_marshal.create_from_stream(stream, context)
         has_tell = hasattr(stream, 'tell')
+        if not has_tell:
+            # The size of an element may differ from what was read (e.g. if its padding was stripped).
+            stream = _CountingStream(stream)
         while total_bytes > 0:
-            element_size = stream.tell() if has_tell else 0
+            element_size = stream.tell() if has_tell else stream.count
             element = self.element_marshal.create_from_stream(stream, context, *args, **kwargs)
             obj.append(element)
-            element_size = stream.tell() - element_size if has_tell else self.element_marshal.sizeof(element)
+            element_size = (stream.tell() if has_tell else stream.count) - element_size
             total_bytes -= element_size
         assert total_bytes == 0
         return obj
-- 
2.43.0


From f62ec689beeb757e819e08fbeeb92f2b7a228ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 38/47] fix: ConstField with an array of Structs accepts its
 own serialization

---
 src/infi/instruct/struct/const.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infi/instruct/struct/const.py b/src/infi/instruct/struct/const.py
index 7c6be69..7366c8c 100644
--- a/src/infi/instruct/struct/const.py
+++ b/src/infi/instruct/struct/const.py
@@ -23,8 +23,8 @@ class ConstField(Field):
                                  self.marshal.to_repr(value, context)))
 
     def _is_const_value(self, value, context):
-        if isinstance(self.value, (Struct, float)):
-            # Structs have no equality of their own and a float may lose precision, so we compare what is serialized.
+        if isinstance(self.value, (Struct, float, list)):
+            # Structs (also inside arrays) have no equality of their own and a float may lose precision, so we compare what is serialized.
             return (self.marshal.write_to_string(value, context) ==
                     self.marshal.write_to_string(self.value, context))
         return value == self.value
-- 
2.43.0


From fa626e2f43e86d30f6bd9ea6eb5e00e830c92a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 39/47] fix: bit-field groups refuse a short read

---
 src/infi/instruct/struct/bit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/struct/bit.py b/src/infi/instruct/struct/bit.py
index c8e62a8..7be2d1c 100644
--- a/src/infi/instruct/struct/bit.py
+++ b/src/infi/instruct/struct/bit.py
@@ -1,6 +1,6 @@
 from . import FieldListContainer
 from ..base import FixedSizer, Marshal, MinMax, EMPTY_CONTEXT
-from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError
+from ..errors import InstructError, BitFieldNotInByteBoundry, FieldTypeNotSupportedError, NotEnoughDataError
 from ..utils.bitstringio import BitStringIO
 
 class BitMarshal(FixedSizer, Marshal):
@@ -44,7 +44,10 @@ class BitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
+        bit_stream = BitStringIO(data)
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
 
@@ -103,6 +106,9 @@ class PositionalBitFieldListContainer(FixedSizer, FieldListContainer):
         stream.write(bit_stream.getvalue())
 
     def read_fields(self, obj, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        bit_stream = BitStringIO(stream.read(self.size))
+        data = stream.read(self.size)
+        if len(data) < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=len(data))
+        bit_stream = BitStringIO(data)
         for field in self.fields:
             field.read_fields(obj, bit_stream, context, *args, **kwargs)
-- 
2.43.0


From 66b37d53eb9c42339e195a982c580d4fc5d6f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 40/47] fix: byte padding refuses a short read

---
 src/infi/instruct/padding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/padding.py b/src/infi/instruct/padding.py
index 31c4c09..f128eed 100644
--- a/src/infi/instruct/padding.py
+++ b/src/infi/instruct/padding.py
@@ -1,4 +1,5 @@
 from .base import FixedSizer, Marshal, EMPTY_CONTEXT
+from .errors import NotEnoughDataError
 
 class BytePaddingMarshal(FixedSizer, Marshal):
     def __init__(self, size, char=b"\x00"):
@@ -11,7 +12,9 @@ class BytePaddingMarshal(FixedSizer, Marshal):
         stream.write(self.char * self.size)
 
     def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
-        stream.read(self.size)
+        actually_read = len(stream.read(self.size))
+        if actually_read < self.size:
+            raise NotEnoughDataError(expected=self.size, actually_read=actually_read)
 
     def to_repr(self, obj, context=EMPTY_CONTEXT):
         return "<%d bytes padding>" % (self.size,)
-- 
2.43.0


From 6bdd5ee00f98c27264f8d02dad35add88505180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 41/47] fix: Buffer values refuse an input that ends within
 their last byte

---
 src/infi/instruct/buffer/serialize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index c2213f4..a1f39ca 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -109,7 +109,8 @@ def unpack_bit_int(buffer, byte_size, **kwargs):
 def unpack_struct_int(buffer, format_char, **kwargs):
     format = format_from_struct_int_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, \
+        "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 STRUCT_INT_UNPACKERS = {
@@ -161,7 +162,8 @@ STRUCT_FLOAT_PACKERS = {
 def unpack_struct_float(buffer, format_char, **kwargs):
     format = format_from_struct_float_arguments(format_char, kwargs)
     byte_size = struct.calcsize(format)
-    assert len(buffer) >= byte_size, "buffer size must be at least {0} but instead got {1}".format(byte_size, len(buffer))
+    assert buffer.length() >= byte_size, \
+        "buffer size must be at least {0} but instead got {1}".format(byte_size, buffer.length())
     return struct.unpack(format, buffer[0:byte_size].to_bytes())[0], byte_size
 
 
@@ -213,8 +215,8 @@ def unpack_str(buffer, **kwargs):
     padding = args['padding']
     strip = args['strip']
     byte_size = kwargs_int_byte_size(args)
-    if byte_size and len(buffer) < byte_size:
-        raise ValueError("str byte_size is {} but got buffer with len {}".format(byte_size, len(buffer)))
+    if byte_size and buffer.length() < byte_size:
+        raise ValueError("str byte_size is {} but got buffer with length {}".format(byte_size, buffer.length()))
 
     value = buffer[0:byte_size].to_bytes()
     if byte_size is not None:
-- 
2.43.0


From 50efc6dbb21d5b2a31c0432c32ef6d54f35b7744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 42/47] fix: unpacked size of fields whose ranges are not in
 order

---
 src/infi/instruct/buffer/range.py             | 19 +++++++++++++++++++
 .../instruct/buffer/reference/after_field.py  |  3 +--
 .../instruct/buffer/reference/total_size.py   |  3 +--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index 4848e99..b304258 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -180,6 +180,25 @@ class SequentialRangeList(list, SequentialRangeMixin):
                 remaining_bytes -= r.byte_length()
         assert False, "requested byte offset {0!r} is outside the range list {1!r}".format(bytes, self)
 
+    def used_stop(self, bytes):
+        """
+        Similar to byte_offset(), but returns the highest offset of the ranges used, which may not be the last one if
+        the list isn't sorted. For example, if our list of sequences is [(4, 5), (0, 2)] then used_stop(3) is 5.
+        :returns: maximum stop of the ranges that are used when filling the list, in its order, with `bytes` bytes.
+        :rtype: int or float
+        """
+        remaining_bytes = bytes
+        stop = self[0].start if self else 0
+        for r in self:
+            if r.is_open():
+                return max(stop, r.start + remaining_bytes)
+            if remaining_bytes > 0 or r.byte_length() == 0:
+                used_bytes = min(remaining_bytes, r.byte_length())
+                stop = max(stop, r.start + used_bytes)
+                remaining_bytes -= used_bytes
+        assert remaining_bytes == 0, "byte length {0!r} is outside the range list {1!r}".format(bytes, self)
+        return stop
+
     def find_relative_container_index(self, point):
         sum_length = 0
         for i in range(len(self)):
diff --git a/src/infi/instruct/buffer/reference/after_field.py b/src/infi/instruct/buffer/reference/after_field.py
index 99196ff..06ccc0e 100644
--- a/src/infi/instruct/buffer/reference/after_field.py
+++ b/src/infi/instruct/buffer/reference/after_field.py
@@ -20,8 +20,7 @@ class AfterFieldReference(Reference):
                 # Since all reference results are cached, we can ask the unpack result again w/o performance problems.
                 _, byte_size = self.field_ref.unpack_ref.deref(ctx)
                 position_list = self.field_ref.unpack_absolute_position_ref.unpack_position_ref.deref(ctx)
-                # Since we want the "highest" byte, we need to sort the ranges.
-                offset = position_list.sorted().byte_offset(byte_size)
+                offset = position_list.used_stop(byte_size)
             else:
                 offset = self.field_ref.unpack_absolute_position_ref.deref(ctx).max_stop()
         return offset
diff --git a/src/infi/instruct/buffer/reference/total_size.py b/src/infi/instruct/buffer/reference/total_size.py
index 83c1b01..687e78f 100644
--- a/src/infi/instruct/buffer/reference/total_size.py
+++ b/src/infi/instruct/buffer/reference/total_size.py
@@ -31,8 +31,7 @@ class TotalSizeReference(Reference):
     def _unpack_position_list_for_field(self, ctx, field):
         if field.unpack_if.deref(ctx):
             _, size = field.unpack_ref.deref(ctx)
-            result = field.unpack_absolute_position_ref.deref(ctx).byte_offset(size)
-            return result
+            return field.unpack_absolute_position_ref.unpack_position_ref.deref(ctx).used_stop(size)
         else:
             return 0
 
-- 
2.43.0


From bb250b088094f186e2116bbcf0ad039a8c7978ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 43/47] fix: unpack_after holds for fields unpacked through a
 reference

---
 src/infi/instruct/buffer/field_reference_builder.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/infi/instruct/buffer/field_reference_builder.py b/src/infi/instruct/buffer/field_reference_builder.py
index 5155031..2942a30 100644
--- a/src/infi/instruct/buffer/field_reference_builder.py
+++ b/src/infi/instruct/buffer/field_reference_builder.py
@@ -82,6 +82,15 @@ class UnpackerReference(FuncCallReference):
     def __init__(self, numeric, unpacker, absolute_position_ref, *args, **kwargs):
         super(UnpackerReference, self).__init__(numeric, unpacker, InputBufferPartReference(absolute_position_ref),
                                                 *args, **kwargs)
+        self.field = absolute_position_ref.field
+
+    def evaluate(self, ctx):
+        # This field may be unpacked because another field refers to it, so its `unpack_after` fields may not have been
+        # unpacked yet (unless it's one of them that needs this field).
+        for prev_field in self.field.unpack_after:
+            if prev_field.unpack_value_ref not in ctx.call_nodes:
+                prev_field.unpack_value_ref.deref(ctx)
+        return super(UnpackerReference, self).evaluate(ctx)
 
     def _args_repr(self):
         return ", ".join(["buffer", "position"] + [safe_repr(arg) for arg in self.arg_refs[2:]])
-- 
2.43.0


From f4e33cecb68284bde72a060251348d3baceed1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 44/47] fix: total size and end of a field are ints when whole

---
 src/infi/instruct/buffer/range.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/infi/instruct/buffer/range.py b/src/infi/instruct/buffer/range.py
index b304258..1bf99b9 100644
--- a/src/infi/instruct/buffer/range.py
+++ b/src/infi/instruct/buffer/range.py
@@ -5,6 +5,13 @@ from .._compat import range
 BIT = 0.125
 
 
+def whole(n):
+    """
+    :returns: n as an int if it's a whole number (sums of bits are floats even if they make whole bytes), otherwise n.
+    """
+    return int(n) if n == int(n) else n
+
+
 class SequentialRangeMixin(object):
     """Common interface between SquentialRange and SequentialRangeList"""
 
@@ -155,7 +162,7 @@ class SequentialRangeList(list, SequentialRangeMixin):
             if r.is_open():
                 return None
             m = max(m, r.stop)
-        return m
+        return whole(m)
 
     def sorted(self):
         """
@@ -191,13 +198,13 @@ class SequentialRangeList(list, SequentialRangeMixin):
         stop = self[0].start if self else 0
         for r in self:
             if r.is_open():
-                return max(stop, r.start + remaining_bytes)
+                return whole(max(stop, r.start + remaining_bytes))
             if remaining_bytes > 0 or r.byte_length() == 0:
                 used_bytes = min(remaining_bytes, r.byte_length())
                 stop = max(stop, r.start + used_bytes)
                 remaining_bytes -= used_bytes
         assert remaining_bytes == 0, "byte length {0!r} is outside the range list {1!r}".format(bytes, self)
-        return stop
+        return whole(stop)
 
     def find_relative_container_index(self, point):
         sum_length = 0
-- 
2.43.0


From c3dd48bbf8d71541bef5d3db0b8f2769e7c98688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 45/47] fix: text fields at positions given in bits

---
 src/infi/instruct/buffer/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/serialize.py b/src/infi/instruct/buffer/serialize.py
index a1f39ca..318c352 100644
--- a/src/infi/instruct/buffer/serialize.py
+++ b/src/infi/instruct/buffer/serialize.py
@@ -23,7 +23,8 @@ def kwargs_int_byte_size(kwargs):
     byte_size = kwargs.get("byte_size", None)
     assert byte_size is None or ((byte_size >= 0) and (int(byte_size) == byte_size)), \
         "size can be unknown (None) or a non-negative integer but instead got {0}".format(byte_size)
-    return byte_size
+    # A position given in bits has a float length even if it is made of whole bytes.
+    return int(byte_size) if byte_size is not None else None
 
 
 def assert_enum_argument(name, value, enum):
-- 
2.43.0


From 8c206a4c44d594a41d22cb3ccf4db2021df21339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:47 +0000
Subject: [PATCH 46/47] fix: adapted buffers of a size in bits, and short input

---
 src/infi/instruct/buffer/compat.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/compat.py b/src/infi/instruct/buffer/compat.py
index aa8ebea..76c02eb 100644
--- a/src/infi/instruct/buffer/compat.py
+++ b/src/infi/instruct/buffer/compat.py
@@ -1,4 +1,7 @@
+from math import ceil
+
 from .._compat import PY2
+from ..errors import NotEnoughDataError
 
 class StructTypeAdapter(object):
     def __init__(self, buffer_type):
@@ -18,7 +21,11 @@ class StructTypeAdapter(object):
 
     def create_from_stream(self, stream, context=None, *args, **kwargs):
         if self.buffer_type.byte_size is not None:
-            packed_data = stream.read(self.buffer_type.byte_size)
+            # A size that is not a whole number of bytes (fields of some bits) packs to the next whole one.
+            size = int(ceil(self.buffer_type.byte_size))
+            packed_data = stream.read(size)
+            if len(packed_data) < size:
+                raise NotEnoughDataError(expected=size, actually_read=len(packed_data))
             result = self.buffer_type()
             result.unpack(packed_data)
             return result
-- 
2.43.0


From 56d76008079f5377e711935f4710d3e11f310f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:16 +0000
Subject: [PATCH 47/47] fix: negating a reference that is not numeric raises
 TypeError

---
 src/infi/instruct/buffer/reference/reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infi/instruct/buffer/reference/reference.py b/src/infi/instruct/buffer/reference/reference.py
index cee4bc7..8c33f6f 100644
--- a/src/infi/instruct/buffer/reference/reference.py
+++ b/src/infi/instruct/buffer/reference/reference.py
@@ -209,7 +209,7 @@ class Reference(object):
 
     def __neg__(self):
         if not self.is_numeric():
-            return NotImplemented
+            raise TypeError("bad operand type for unary -: {0!r} is not numeric".format(self))
         return NumericUnaryExpression(self, operator.neg)
 
     # FIXME: add rest of the operators, including unary ones
-- 
2.43.0

