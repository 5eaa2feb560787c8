From 082cad54170b7711a1e8c5fc0bb975c94dc5561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 01/36] fix: keep the rest of the right-hand format when
 folding overlapping formats

---
 structured/serializers/structs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index bac49aa..e1786b4 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -56,7 +56,7 @@ def compute_num_values(st: struct.Struct, *, __cache: dict[str, int] = {}) -> in
 
 _struct_chars = r'xcbB\?hHiIlLqQnNefdspP'
 _re_end: re.Pattern[str] = re.compile(rf'(.*?)(\d*)([{_struct_chars}])$')
-_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*?)')
+_re_start: re.Pattern[str] = re.compile(rf'^(\d*)([{_struct_chars}])(.*)')
 
 
 def fold_overlaps(format1: str, format2: str, combine_strings: bool = False) -> str:
-- 
2.43.0


From 7a6b1acec9177954f6015a0d6041c2f80b7a7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 02/36] fix: zero length strings are still one value

---
 structured/serializers/structs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index e1786b4..8af4e97 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -187,13 +187,18 @@ class StructSerializer(Generic[Unpack[Ts]], struct.Struct, Serializer[Unpack[Ts]
     def _mul_impl(self, other: int, combine_strings: bool = False) -> Self:
         if not isinstance(other, int):
             return NotImplemented
-        elif other == 0:
+        elif other == 0 and not combine_strings:
             return NullSerializer()
         elif other < 0:
             raise ValueError('count must be non-negative')
         elif other == 1:
             return self
         byte_order, fmt = self._split_format
+        if other == 0:
+            # An empty string still is one value (and '0x' still is padding)
+            if fmt.endswith('p'):
+                raise ValueError('pascal strings require a size of at least 1')
+            return type(self)(f'0{fmt[-1]}', byte_order)
         fmt = reduce(
             partial(fold_overlaps, combine_strings=combine_strings), repeat(fmt, other)
         )
-- 
2.43.0


From cf3f0c49afede57a5547baa8e4d22733f5ad15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 03/36] fix: pack length prefixed strings with a non-default
 byte order

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9073e1f..1cfd686 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -71,7 +71,7 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         raw_data = values[0]
         count = len(raw_data)
-        st = self.st + _single_char @ count
+        st = self.st + (_single_char @ count).with_byte_order(self.st.byte_order)
         self.size = st.size
         return st, count, raw_data
 
-- 
2.43.0


From c9ad058f3a5b69def857e9b5c3fa9e78c92f7727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 04/36] fix: dynamic struct arrays hold one value, and have no
 padding after the count

---
 structured/serializers/arrays.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index e840cbc..f5b50ad 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -22,7 +22,7 @@ from ..type_checking import (
     Unpack,
     WritableBuffer,
 )
-from .api import NullSerializer, Serializer
+from .api import CompoundSerializer, NullSerializer, Serializer
 from .structs import StructSerializer
 
 HeaderSerializer = Union[
@@ -235,7 +235,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         self.count_serializer = count_serializer
         self.item_serializer = item_serializer
-        self.num_values = 0
+        self.num_values = 1
         self.size = 0
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
@@ -247,28 +247,26 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
     def _packer(self, values: tuple[list[T]]) -> tuple[Serializer, list[T]]:
         items = values[0]
         count = len(items)
-        if count == 0:
-            # Since we'll be modifying its .num_values, we want a copy
-            serializer = StructSerializer(self.count_serializer.format)
-        else:
-            serializer = self.count_serializer + (self.item_serializer * count)
-        serializer.num_values -= 1
-        self.size = serializer.size
+        # Not joined into a single struct: native alignment would insert padding
+        # between the count and the items, which unpacking doesn't expect.
+        item_serializer = self.item_serializer * count
+        serializer = CompoundSerializer((self.count_serializer, item_serializer))
+        self.size = self.count_serializer.size + item_serializer.size
         return serializer, items
 
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         serializer, items = self._packer(values)
-        return serializer.pack(serializer.num_values, *items)
+        return serializer.pack(len(items), *items)
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[list[T]]]
     ) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_into(buffer, offset, serializer.num_values, *items)
+        serializer.pack_into(buffer, offset, len(items), *items)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[list[T]]]) -> None:
         serializer, items = self._packer(values)
-        serializer.pack_write(writable, serializer.num_values, *items)
+        serializer.pack_write(writable, len(items), *items)
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack(buffer)
-- 
2.43.0


From 2714bca5a170cf624badc328aa81a3b78a17796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 05/36] fix: apply the byte order inside tuples, unions and
 unicode strings

---
 structured/serializers/strings.py |  5 +++++
 structured/serializers/tuples.py  |  5 +++++
 structured/serializers/unions.py  | 20 ++++++++++++++++++++
 3 files changed, 30 insertions(+)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 1cfd686..ca90ae6 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -369,6 +369,11 @@ class UnicodeSerializer(Serializer[str]):
         self.encoder = encoder
         self.decoder = decoder
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)(
+            self.serializer.with_byte_order(byte_order), self.encoder, self.decoder
+        )
+
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index ff231bb..b6ad75c 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -8,6 +8,7 @@ __all__ = [
 ]
 
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -16,6 +17,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     Ts,
     Unpack,
     WritableBuffer,
@@ -32,6 +34,9 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        return type(self)((self.serializer.with_byte_order(byte_order),))
+
     @property
     def size(self) -> int:
         return self.serializer.size
diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 21b29cc..0ca89d3 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -12,7 +12,9 @@ __all__ = [
 ]
 
 import os
+from copy import copy
 
+from ..base_types import ByteOrder
 from ..type_checking import (
     Any,
     BinaryIO,
@@ -21,6 +23,7 @@ from ..type_checking import (
     Iterable,
     Optional,
     ReadableBuffer,
+    Self,
     WritableBuffer,
     annotated,
     get_union_args,
@@ -58,6 +61,16 @@ class AUnion(Serializer):
             if serializer.is_final():
                 return serializer.get_final()
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        union = copy(self)
+        union.result_map = {
+            key: serializer.with_byte_order(byte_order)
+            for key, serializer in self.result_map.items()
+        }
+        if self.default is not None:
+            union.default = self.default.with_byte_order(byte_order)
+        return union
+
     @staticmethod
     def validate_serializer(hint) -> Serializer:
         serializer = annotated.transform(hint)
@@ -190,6 +203,13 @@ class LookaheadDecider(AUnion):
             )
         self.read_ahead_serializer = serializer
 
+    def with_byte_order(self, byte_order: ByteOrder) -> Self:
+        union = super().with_byte_order(byte_order)
+        union.read_ahead_serializer = self.read_ahead_serializer.with_byte_order(
+            byte_order
+        )
+        return union
+
     def pack(self, *values: Any) -> bytes:
         result = self.decider(self._partial_object)
         serializer = self.get_serializer(result, True)
-- 
2.43.0


From 5544abbcccc5889a2c9cb61ce5cb6b52d4c4230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 06/36] fix: unpack tuples to tuples, not to unconsumed
 iterators

---
 structured/serializers/tuples.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index b6ad75c..404376a 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -61,12 +61,15 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return self
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack(buffer),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[Iterable[Any]]:
-        return (
-            self.serializer.preunpack(self._partial_obj).unpack_from(buffer, offset),
-        )
+    def unpack_from(
+        self, buffer: ReadableBuffer, offset: int = 0
+    ) -> tuple[Iterable[Any]]:
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
-        return (self.serializer.preunpack(self._partial_obj).unpack_read(readable),)
+        serializer = self.serializer.preunpack(self._partial_obj)
+        return (tuple(serializer.unpack_read(readable)),)
-- 
2.43.0


From b645a885b1c420283538754331cd0101037aa545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:19 +0000
Subject: [PATCH 07/36] fix: terminated strings: single terminator, correct
 size at an offset

---
 structured/serializers/strings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index ca90ae6..e71b863 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -196,9 +196,9 @@ class TerminatedCharSerializer(Serializer[bytes]):
     def _st_data(self, values: tuple[bytes]) -> tuple[StructSerializer, bytes]:
         """Common packing logic."""
         raw_data = values[0]
-        if not raw_data or raw_data[-1] != self.terminator:
+        if raw_data[-1:] != self.terminator:
             # Insert terminator if needed
-            raw_data += self.terminator
+            raw_data = raw_data + self.terminator
         count = len(raw_data)
         self.size = count
         return _single_char @ count, raw_data
@@ -227,7 +227,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 end += 1
         except IndexError:
             raise ValueError('unterminated string.') from None
-        self.size = end + 1
+        self.size = end + 1 - offset
         return (bytes(buffer[offset:end]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
@@ -239,7 +239,7 @@ class TerminatedCharSerializer(Serializer[bytes]):
                 offset = chunk.find(self.terminator)
                 if offset == -1:
                     out.write(chunk)
-                    size += READ_SIZE
+                    size += len(chunk)
                 else:
                     out.write(chunk[:offset])
                     size += offset + 1
-- 
2.43.0


From 49314db8a3ea1f0d4ace804bcc9db8e54ab427cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 08/36] fix: prepare and track the size of conditional
 serializers

---
 structured/serializers/conditional.py | 52 +++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index fc6299f..152f220 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -16,6 +16,7 @@ from ..type_checking import (
     BinaryIO,
     Callable,
     Generic,
+    Iterable,
     Optional,
     ReadableBuffer,
     Self,
@@ -47,6 +48,7 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
             True: serializer,
             False: SkipSerializer(default),
         }
+        self.size = 0
         self.num_values = serializer.num_values
         if serializer.num_values != len(default):
             expected = len(default)
@@ -64,10 +66,56 @@ class ConditionalSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         return type(self)(serializer, self.condition, defaults)
 
     def prepack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.serializers[self.condition(partial_object)]
+        self._partial_object = partial_object
+        return self
 
     def preunpack(self, partial_object: Any) -> Serializer[Unpack[Ts]]:
-        return self.prepack(partial_object)
+        self._partial_object = partial_object
+        return self
+
+    def _get_serializer(self, packing: bool) -> Serializer[Unpack[Ts]]:
+        partial_object = self._partial_object
+        serializer = self.serializers[bool(self.condition(partial_object))]
+        if packing:
+            return serializer.prepack(partial_object)
+        else:
+            return serializer.preunpack(partial_object)
+
+    def pack(self, *values: Unpack[Ts]) -> bytes:
+        serializer = self._get_serializer(True)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
+
+    def pack_into(
+        self, buffer: WritableBuffer, offset: int, *values: Unpack[Ts]
+    ) -> None:
+        serializer = self._get_serializer(True)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
+
+    def pack_write(self, writable: BinaryIO, *values: Unpack[Ts]) -> None:
+        serializer = self._get_serializer(True)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
+
+    def unpack(self, buffer: ReadableBuffer) -> Iterable:
+        serializer = self._get_serializer(False)
+        values = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return values
+
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
+        serializer = self._get_serializer(False)
+        values = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return values
+
+    def unpack_read(self, readable: BinaryIO) -> Iterable:
+        serializer = self._get_serializer(False)
+        values = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return values
 
 
 class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
-- 
2.43.0


From ef2aa4346207fa9b8f24a6094164fa4b265e00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 09/36] fix: don't share mutable Condition defaults between
 instances

---
 structured/serializers/conditional.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/conditional.py b/structured/serializers/conditional.py
index 152f220..cede068 100644
--- a/structured/serializers/conditional.py
+++ b/structured/serializers/conditional.py
@@ -10,6 +10,8 @@ __all__ = [
     'ConditionalSerializer',
 ]
 
+from copy import deepcopy
+
 from ..type_checking import (
     TYPE_CHECKING,
     Any,
@@ -137,10 +139,10 @@ class SkipSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         pass
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Unpack[Ts]]:
-        return self.values
+        return deepcopy(self.values)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[Unpack[Ts]]:
-        return self.values
+        return deepcopy(self.values)
 
     def unpack_read(self, readable: BinaryIO) -> tuple:
-        return self.values
+        return deepcopy(self.values)
-- 
2.43.0


From cfe4d28cd9ce8592b9566abf9ff20bfdb98977ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 10/36] fix: fully unpack union values before reading their
 size

---
 structured/serializers/unions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 0ca89d3..229de0d 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -162,19 +162,19 @@ class LookbackDecider(AUnion):
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack(buffer)
+        value = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return value
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_from(buffer, offset)
+        value = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return value
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
         serializer = self.decide(False)
-        value = serializer.unpack_read(readable)
+        value = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return value
 
@@ -232,14 +232,14 @@ class LookaheadDecider(AUnion):
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
         result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack(buffer)
+        values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
         result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_from(buffer, offset)
+        values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
@@ -247,6 +247,6 @@ class LookaheadDecider(AUnion):
         result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
         readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
-        values = serializer.unpack_read(readable)
+        values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return values
-- 
2.43.0


From e7e226e09f5b9fb0fba257312bdf21e5d336b038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 11/36] fix: prepare the read-ahead serializer of a
 LookaheadDecider

---
 structured/serializers/unions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 229de0d..4e0ac7e 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -229,23 +229,27 @@ class LookaheadDecider(AUnion):
         serializer.pack_write(writable, *values)
         self.size = serializer.size
 
+    def _read_ahead(self) -> Serializer:
+        return self.read_ahead_serializer.preunpack(self._partial_object)
+
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack(buffer))[0]
+        result = tuple(self._read_ahead().unpack(buffer))[0]
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_from(buffer, offset))[0]
+        result = tuple(self._read_ahead().unpack_from(buffer, offset))[0]
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
-        result = tuple(self.read_ahead_serializer.unpack_read(readable))[0]
-        readable.seek(-self.read_ahead_serializer.size, os.SEEK_CUR)
+        read_ahead = self._read_ahead()
+        result = tuple(read_ahead.unpack_read(readable))[0]
+        readable.seek(-read_ahead.size, os.SEEK_CUR)
         serializer = self.get_serializer(result, False)
         values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
-- 
2.43.0


From 7d5e380078a34385ead27bdec62e00d16cdaa5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 12/36] fix: a union with a final default serializer is final

---
 structured/serializers/unions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index 4e0ac7e..a388217 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -60,6 +60,8 @@ class AUnion(Serializer):
         for serializer in self.result_map.values():
             if serializer.is_final():
                 return serializer.get_final()
+        if self.default is not None:
+            return self.default.get_final()
 
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         union = copy(self)
-- 
2.43.0


From 2499b67aba9175c31516b368877dba9351bd5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 13/36] fix: honor the data size header of arrays of basic
 types

---
 structured/hint_types/arrays.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 5021869..02ee042 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -107,6 +107,7 @@ class array(Generic[S, T], list[T], requires_indexing):
         if (
             isinstance(item_serializer, StructSerializer)
             and item_serializer.num_values == 1
+            and header.data_size is None
         ):
             if isinstance(header.count, int):
                 return Annotated[
-- 
2.43.0


From 1c4bce5aff60327131333c76105fa3e35842aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 14/36] fix: support Self in instance level unpacking, and
 fields named cls

---
 structured/serializers/self.py | 8 +++++---
 structured/structured.py       | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/self.py b/structured/serializers/self.py
index b611367..5fc74a1 100644
--- a/structured/serializers/self.py
+++ b/structured/serializers/self.py
@@ -7,7 +7,7 @@ __all__ = [
 ]
 
 
-from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, annotated
+from ..type_checking import TYPE_CHECKING, Any, ClassVar, Self, Union, annotated
 from .api import Serializer
 from .structured import StructuredSerializer
 
@@ -24,8 +24,10 @@ class SelfSerializer(Serializer[Structured]):
     def prepack(self, partial_object: Structured) -> Serializer:
         return StructuredSerializer(type(partial_object))
 
-    def preunpack(self, partial_object: _Proxy) -> Serializer:
-        return StructuredSerializer(partial_object.cls)
+    def preunpack(self, partial_object: Union[_Proxy, Structured]) -> Serializer:
+        # NOTE: instance-level unpacking uses the instance itself, not a proxy
+        obj_type = getattr(partial_object, '__proxied_cls__', type(partial_object))
+        return StructuredSerializer(obj_type)
 
     @classmethod
     def _transform(cls, base_type: Any, hint: Any) -> Any:
diff --git a/structured/structured.py b/structured/structured.py
index bd9038f..8c3844b 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -474,7 +474,7 @@ class _Proxy:
     # is a proxy for won't be shadowed.
     def __init__(self, cls: type[Structured]) -> None:
         self.__attrs = cls.attrs
-        self.cls = cls
+        self.__proxied_cls__ = cls
 
     def __call__(self, values: Iterable[Any]) -> None:
         for attr, value in zips(self.__attrs, values, strict=True):
-- 
2.43.0


From c3dcf045b13961bf0932a081445fdf4f3395967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 15/36] fix: refuse to join action serializers with different
 byte orders

---
 structured/serializers/structs.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 8af4e97..324ff59 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -285,7 +285,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return super().__add__(other)
         byte_order, lfmt = self._split_format
-        _, rfmt = other._split_format
+        byte_order2, rfmt = other._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{self} + {other}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(self.actions, actions))
         return type(self)(fmt, byte_order, actions)
@@ -298,7 +303,12 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         else:
             return NotImplemented
         byte_order, lfmt = other._split_format
-        _, rfmt = self._split_format
+        byte_order2, rfmt = self._split_format
+        if byte_order is not byte_order2:
+            raise ValueError(
+                f'Cannot join StructSerializers with different byte orders: '
+                f'{other} + {self}'
+            )
         fmt = fold_overlaps(lfmt, rfmt)
         actions = tuple(chain(actions, self.actions))
         return type(self)(fmt, byte_order, actions)  # type: ignore
-- 
2.43.0


From b4aa23b87f4a3ce44f5c1cce4b0421f69cfaadb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 16/36] fix: make the unpack_from offset optional for every
 serializer

---
 structured/serializers/arrays.py  | 6 +++---
 structured/serializers/structs.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index f5b50ad..2ae4d7c 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -147,7 +147,7 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size
         return (items,)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
@@ -216,7 +216,7 @@ class StaticStructArraySerializer(Generic[T], Serializer[list[T]]):
     def unpack(self, buffer: ReadableBuffer) -> tuple[list[T]]:
         return (list(self.serializer.unpack(buffer)),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         return (list(self.serializer.unpack_from(buffer, offset)),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[list[T]]:
@@ -276,7 +276,7 @@ class DynamicStructArraySerializer(Generic[T], Serializer[list[T]]):
         self.size = size + serializer.size
         return (list(items),)
 
-    def unpack_from(self, buffer: ReadableBuffer, offset: int) -> tuple[list[T]]:
+    def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[list[T]]:
         (count,) = self.count_serializer.unpack_from(buffer, offset)
         size = self.count_serializer.size
         serializer = self.item_serializer * count
diff --git a/structured/serializers/structs.py b/structured/serializers/structs.py
index 324ff59..1aba790 100644
--- a/structured/serializers/structs.py
+++ b/structured/serializers/structs.py
@@ -248,7 +248,7 @@ class StructActionSerializer(Generic[Unpack[Ts]], StructSerializer[Unpack[Ts]]):
         )  # type: ignore
 
     def unpack_from(
-        self, buffer: ReadableBuffer, offset: int = ...
+        self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Unpack[Ts]]:
         return tuple(
             action(value)
-- 
2.43.0


From b7236cb399a005287a00ae5a6462a2517722fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 17/36] fix: don't silently accept truncated length prefixed
 strings

---
 structured/serializers/strings.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index e71b863..3a67cf9 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -28,7 +28,6 @@ from ..type_checking import (
     Union,
     Unpack,
     WritableBuffer,
-    cast,
 )
 from .api import Serializer
 from .structs import StructSerializer
@@ -112,7 +111,8 @@ class DynamicCharSerializer(Serializer[bytes]):
         """
         count = self.st.unpack(buffer)[0]
         self.size = self.st.size + count
-        return (bytes(buffer[self.st.size : self.size]),)
+        st = _single_char @ count
+        return st.unpack(buffer[self.st.size :])
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         """Unpack a dynamically sized bytestring from a buffer supporting the
@@ -315,7 +315,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (cast(bytes, buffer[size : size + count]),)
+        return struct.unpack(f'{count}s', buffer[size : size + count])
 
     def unpack_from(
         self,
@@ -343,7 +343,7 @@ class NETCharSerializer(Serializer[bytes]):
         else:
             size = self.short_len.size
         self.size = size + count
-        return (readable.read(count),)
+        return struct.unpack(f'{count}s', readable.read(count))
 
 
 Encoder = Callable[[str], bytes]
-- 
2.43.0


From 310676ea803b52acd71fc7d61dfb460e188e5725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 18/36] fix: consuming strings: return bytes, and never resize
 the target buffer

---
 structured/serializers/strings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 3a67cf9..f7032a9 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -160,7 +160,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
     ) -> None:
         data = values[0]
         self.size = len(data)
-        buffer[offset : offset + self.size] = data
+        struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
         data = values[0]
@@ -169,11 +169,11 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-        return (buffer,)
+        return (bytes(buffer),)
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> tuple[bytes]:
         self.size = len(buffer) - offset
-        return (buffer[offset:],)
+        return (bytes(buffer[offset:]),)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[bytes]:
         data = readable.read()
-- 
2.43.0


From c2a659d6e7c9a5a604cc27d1377fea5ac7df31e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 19/36] fix: encode long .NET string lengths independently of
 the platform

---
 structured/serializers/strings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index f7032a9..057d530 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -263,7 +263,8 @@ class NETCharSerializer(Serializer[bytes]):
         # always use a specific one (need to find some docs *somewhere* on
         # this format, other than old WryeBase code.)
         self.short_len = StructSerializer('B')
-        self.long_len = StructSerializer('H')
+        # The length flag is in the first byte, so this must be little endian
+        self.long_len = StructSerializer('H', ByteOrder.LITTLE_ENDIAN)
         self.size = 0
 
     def _st_count_data(
@@ -277,7 +278,9 @@ class NETCharSerializer(Serializer[bytes]):
         elif count > 0x7FFF:
             raise ValueError('.NET string length too long to encode.')
         else:
-            st = self.long_len + _single_char @ count
+            st = self.long_len + (_single_char @ count).with_byte_order(
+                ByteOrder.LITTLE_ENDIAN
+            )
             count = 0x80 | count & 0x7F | (count & 0xFF80) << 1
         self.size = st.size
         return st, count, raw
-- 
2.43.0


From 4e04bede1f45561d0de4735939fddcd8bdf6fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:27 +0000
Subject: [PATCH 20/36] fix: consuming strings: don't hand out the caller's
 buffer when packing

---
 structured/serializers/strings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 057d530..9ec35f6 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -153,7 +153,7 @@ class ConsumingCharSerializer(Serializer[bytes]):
 
     def pack(self, *values: Unpack[tuple[bytes]]) -> bytes:
         self.size = len(values[0])
-        return values[0]
+        return bytes(values[0])
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[bytes]]
-- 
2.43.0


From d93c6e1ec2815032e13cc1dbd0c1ebb049344002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 21/36] fix: specialized generics keep their byte order

---
 structured/serializers/structured.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 0f0f520..1cbfb9d 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -96,7 +96,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 except KeyError:
                     pass
 
-                class _Specialized(base_type):
+                class _Specialized(base_type, byte_order=origin.byte_order):
                     pass
 
                 serializer = StructuredSerializer(_Specialized)
-- 
2.43.0


From eedd6d4e1afe74f71809f56f012bd26ef13d2879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 22/36] fix: resolve nested and partially specialized generics

---
 structured/hint_types/arrays.py      |  6 ++++--
 structured/hint_types/tuples.py      |  9 +++++++--
 structured/serializers/structured.py | 12 +++++++++---
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 02ee042..42e0a5f 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -90,12 +90,14 @@ class array(Generic[S, T], list[T], requires_indexing):
             raise TypeError(f'{cls.__name__}[] expected 2 arguments, got {args!r}')
         header, item_type = args
         # TypeVar checks
-        if isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
+        item_serializer = annotated.transform(item_type)
+        if isinstance(item_serializer, StructuredAlias):
+            return StructuredAlias(cls, (header, item_serializer))  # type: ignore
+        elif isinstance(header, StructuredAlias) or isinstance(item_type, TypeVar):
             return StructuredAlias(cls, (header, item_type))  # type: ignore
         elif not isinstance(header, Header):
             raise TypeError(f'invalid array header type: {header!r}')
         # Item type checks
-        item_serializer = annotated.transform(item_type)
         if not isinstance(item_serializer, Serializer):
             raise TypeError(f'invalid array item type: {item_type!r}')
         elif item_serializer.is_final():
diff --git a/structured/hint_types/tuples.py b/structured/hint_types/tuples.py
index b28f4dd..5078359 100644
--- a/structured/hint_types/tuples.py
+++ b/structured/hint_types/tuples.py
@@ -10,9 +10,14 @@ from ..utils import StructuredAlias
 def transform_tuple(base_type: Any, hint: Any) -> Any:
     if istuple(base_type):
         if tuple_args := get_tuple_args(base_type):
-            if any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in tuple_args):
-                return StructuredAlias(Tuple, tuple_args)
             serializers = [annotated.transform(x) for x in tuple_args]
+            if any(isinstance(x, (TypeVar, StructuredAlias)) for x in serializers):
+                # Nested generics may be not fully specialized as well
+                args = tuple(
+                    x if isinstance(x, StructuredAlias) else arg
+                    for x, arg in zip(serializers, tuple_args)
+                )
+                return StructuredAlias(Tuple, args)
             if all(isinstance(x, Serializer) for x in serializers):
                 return TupleSerializer(serializers)
 
diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 1cbfb9d..5132b1e 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -87,9 +87,15 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
         if safe_issubclass(base_type, Structured):
             return StructuredSerializer(base_type)
         elif safe_issubclass((origin := get_origin(base_type)), Structured):
-            spec_args = get_args(base_type)
+            # Nested generics may be not fully specialized as well
+            spec_args = tuple(
+                alias
+                if isinstance(alias := annotated.transform(arg), StructuredAlias)
+                else arg
+                for arg in get_args(base_type)
+            )
             key = (origin, spec_args)
-            if all(not isinstance(arg, TypeVar) for arg in spec_args):
+            if not any(isinstance(arg, (TypeVar, StructuredAlias)) for arg in spec_args):
                 # Fully specialized, first try the cache
                 try:
                     return cls._specializations[key]
@@ -106,7 +112,7 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
                 # Not fully specialized, return a StructuredAlias so it
                 # can potentially be fully speciailized by a further
                 # subclassing of the containing class.
-                return StructuredAlias(base_type, spec_args)
+                return StructuredAlias(origin, spec_args)
 
 
 annotated.register_transform(StructuredSerializer._transform)
-- 
2.43.0


From b6d9a9410c2569adb3b7e0ab1e7734eb5fb42d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 23/36] fix: generic specialization doesn't override explicitly
 annotated fields

---
 structured/structured.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index 8c3844b..ded7ca3 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -384,7 +384,10 @@ class Structured(metaclass=StructuredMeta):
             orig_base = base_to_origbase.get(base, None)
             if orig_base:
                 annotations = base._get_specialization_hints(*get_args(orig_base))
-                update_annotations(cls, annotations)
+                explicit = get_annotations(cls)
+                update_annotations(
+                    cls, {k: v for k, v in annotations.items() if k not in explicit}
+                )
         # Analyze the class
         typehints = get_type_hints(cls, include_extras=True)
         applicable_typehints = filter_typehints(typehints, cls)
@@ -460,7 +463,9 @@ class Structured(metaclass=StructuredMeta):
             args = get_args(alias)
             args = (tvar_map.get(arg, arg) for arg in args)
             super_annotations = base._get_specialization_hints(*args)
-            all_annotations.append(super_annotations)
+            all_annotations.append(
+                {k: v for k, v in super_annotations.items() if k not in cls_annotations}
+            )
         return reduce(operator.or_, reversed(all_annotations))
 
 
-- 
2.43.0


From e629a6c42258d9145855b250531a07f479143892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 24/36] fix: prepare array items individually, nested arrays
 may reuse their serializer

---
 structured/serializers/arrays.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/structured/serializers/arrays.py b/structured/serializers/arrays.py
index 2ae4d7c..fc9d037 100644
--- a/structured/serializers/arrays.py
+++ b/structured/serializers/arrays.py
@@ -108,8 +108,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     def pack(self, *values: Unpack[tuple[list[T]]]) -> bytes:
         data = [b'']
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in values[0]:
+            item_serializer = self.item_serializer.prepack(partial_object)
             data.append(item_serializer.pack(item))
             size += item_serializer.size
         header_values = self._header_pack_values(values[0], size - header_size)
@@ -122,8 +123,9 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
     ) -> None:
         items = values[0]
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.prepack(self._partial_object)
+        partial_object = self._partial_object
         for item in items:
+            item_serializer = self.item_serializer.prepack(partial_object)
             item_serializer.pack_into(buffer, offset + size, item)
             size += item_serializer.size
         header_values = self._header_pack_values(items, size - header_size)
@@ -138,9 +140,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack(buffer)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack(buffer[size:]))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -151,9 +154,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_from(buffer, offset)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_from(buffer, offset + size))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
@@ -164,9 +168,10 @@ class ArraySerializer(Generic[T], Serializer[list[T]]):
         header = self.header_serializer.unpack_read(readable)
         count, data_size = self._header_unpack_values(*header)
         size = header_size = self.header_serializer.size
-        item_serializer = self.item_serializer.preunpack(self._partial_object)
+        partial_object = self._partial_object
         items = []
         for _ in range(count):
+            item_serializer = self.item_serializer.preunpack(partial_object)
             items.extend(item_serializer.unpack_read(readable))
             size += item_serializer.size
         self._check_data_size(data_size, size - header_size)
-- 
2.43.0


From 7bfa3db48bced60b19e0f38f8b3e85defe1be611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 25/36] fix: Python 3.9 zips: detect a first iterable longer by
 one

---
 structured/utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/structured/utils.py b/structured/utils.py
index ad88a0a..4f9c756 100644
--- a/structured/utils.py
+++ b/structured/utils.py
@@ -10,6 +10,7 @@ from functools import wraps
 from .type_checking import Any, Callable, Optional, ParamSpec, T, TypeVar
 
 if sys.version_info < (3, 10):
+    from itertools import zip_longest
     from typing import overload
 
     from .type_checking import Iterable, S
@@ -35,16 +36,13 @@ if sys.version_info < (3, 10):
         if not strict:
             yield from zip(*iterables)
         else:
-            iterators = [iter(it) for it in iterables]
-            yield from zip(*iterators)
-            # Check all consumed:
-            for it in iterators:
-                try:
-                    next(it)
-                except StopIteration:
-                    pass
-                else:
+            # NOTE: zip would drop a value of the first iterable when a later one
+            # is exhausted first.
+            missing = object()
+            for values in zip_longest(*iterables, fillvalue=missing):
+                if any(value is missing for value in values):
                     raise ValueError('iterables must be of equal length')
+                yield values
 
 else:
     zips = zip
-- 
2.43.0


From 31bf733f8cbe9443d5209f141fb1e88283663501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 26/36] fix: a tuple reports the size of the serializer
 prepared for the object

---
 structured/serializers/tuples.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 404376a..277e3af 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -30,6 +30,7 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def __init__(self, serializers: Iterable[Serializer]) -> None:
         self.serializer = sum(serializers, NullSerializer())
+        self.size = 0
 
     def get_final(self) -> Optional[Serializer]:
         return self.serializer.get_final()
@@ -37,24 +38,27 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def with_byte_order(self, byte_order: ByteOrder) -> Self:
         return type(self)((self.serializer.with_byte_order(byte_order),))
 
-    @property
-    def size(self) -> int:
-        return self.serializer.size
-
     def prepack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
         return self
 
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
-        return self.serializer.prepack(self._partial_obj).pack(*values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        data = serializer.pack(*values)
+        self.size = serializer.size
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
-        self.serializer.prepack(self._partial_obj).pack_into(buffer, offset, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_into(buffer, offset, *values)
+        self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
-        self.serializer.prepack(self._partial_obj).pack_write(writable, *values)
+        serializer = self.serializer.prepack(self._partial_obj)
+        serializer.pack_write(writable, *values)
+        self.size = serializer.size
 
     def preunpack(self, partial_object: Any) -> Serializer:
         self._partial_obj = partial_object
@@ -62,14 +66,20 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack(buffer)),)
+        value = tuple(serializer.unpack(buffer))
+        self.size = serializer.size
+        return (value,)
 
     def unpack_from(
         self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_from(buffer, offset)),)
+        value = tuple(serializer.unpack_from(buffer, offset))
+        self.size = serializer.size
+        return (value,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[Iterable[Any]]:
         serializer = self.serializer.preunpack(self._partial_obj)
-        return (tuple(serializer.unpack_read(readable)),)
+        value = tuple(serializer.unpack_read(readable))
+        self.size = serializer.size
+        return (value,)
-- 
2.43.0


From 1cc6f99528bf408340275310d3c18dd397223187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:36 +0000
Subject: [PATCH 27/36] fix: a field named self is serialized like any other

---
 structured/structured.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index ded7ca3..b08144d 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -126,7 +126,8 @@ def gen_init(
     """Generates an __init__ method for a class.  `args` should be a mapping of
     arguments to type annotations to be used in the method definition.
 
-    :param args: Mapping of argument names to argument type annotations, including self.
+    :param args: Mapping of argument names to argument type annotations, the first
+        one being the instance argument (self).
     :param globalsns: Any globals needed to be accessed by this method.
     :param localsns: Any locals needed to be accessed by this method.
     :return: The generated __init__, without __qualname__set.
@@ -154,8 +155,9 @@ def gen_init(
     # Inner function text
     args_txt = ', '.join(args_items)
     def_txt = f' def __init__({args_txt}) -> None:'
-    body_lines = [f'  self.{name} = {name}' for name in args.keys() if name != 'self']
-    body_lines.append('  self.__post_init__()')
+    self_name, *names = args.keys()
+    body_lines = [f'  {self_name}.{name} = {name}' for name in names]
+    body_lines.append(f'  {self_name}.__post_init__()')
     body_txt = '\n'.join(body_lines)
     inner_txt = f'{def_txt}\n{body_txt}'
     # Outer creation function
@@ -392,16 +394,13 @@ class Structured(metaclass=StructuredMeta):
         typehints = get_type_hints(cls, include_extras=True)
         applicable_typehints = filter_typehints(typehints, cls)
         # Which variables show up in the __init__
-        # Need to ensure 'self' shows up first
         typehints = get_type_hints(cls)
-        init_vars = {'self': Self}
-        init_vars |= {
+        init_vars = {
             attr: typehints.get(attr, Any)
             for attr in applicable_typehints
             if not ispad(applicable_typehints[attr])
         }
-        # But also don't want 'self' to show up in attrs
-        attrs = tuple(init_vars.keys())[1:]
+        attrs = tuple(init_vars.keys())
         serializer = sum(
             applicable_typehints.values(), NullSerializer()
         ).with_byte_order(byte_order)
@@ -412,7 +411,9 @@ class Structured(metaclass=StructuredMeta):
             else:
                 globals = {}
 
-            init_fn = gen_init(init_vars, globalsns=globals)
+            # The instance argument comes first, and can't clash with a field
+            self_name = 'self' if 'self' not in init_vars else '__structured_self__'
+            init_fn = gen_init({self_name: Self} | init_vars, globalsns=globals)
             init_fn.__qualname__ = f'{cls.__qualname__}.__init__'
             cls.__init__ = init_fn
         # And set the updated class attributes
-- 
2.43.0


From 0c300bd978ee9aa49dd865c451fd491ba0a01e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 28/36] fix: an invalid hint parameter isn't accepted for
 equalling one used before

---
 structured/hint_types/arrays.py  | 4 ++--
 structured/hint_types/strings.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/structured/hint_types/arrays.py b/structured/hint_types/arrays.py
index 42e0a5f..448a627 100644
--- a/structured/hint_types/arrays.py
+++ b/structured/hint_types/arrays.py
@@ -9,7 +9,7 @@ __all__ = [
     'Header',
 ]
 
-from functools import cache
+from functools import cache, lru_cache
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -52,7 +52,7 @@ class Header:
         return cls._create(length_kind, size_kind)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         length_kind: int | TypeVar | StructSerializer[int],
diff --git a/structured/hint_types/strings.py b/structured/hint_types/strings.py
index 8abc533..5dc0b83 100644
--- a/structured/hint_types/strings.py
+++ b/structured/hint_types/strings.py
@@ -13,7 +13,7 @@ __all__ = [
 ]
 
 import math
-from functools import cache, partial
+from functools import lru_cache, partial
 
 from ..base_types import requires_indexing
 from ..serializers import (
@@ -58,7 +58,7 @@ class char(bytes, requires_indexing):
         return cls._create(*args)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
@@ -138,12 +138,12 @@ class unicode(str, requires_indexing):
         count: Union[int, type[_TSize], type[NET]],
         encoding: Union[str, type[EncoderDecoder]] = 'utf8',
     ) -> Serializer[str]:
-        # Double indirection so @cache can see the default args
+        # Double indirection so @lru_cache can see the default args
         # as actual args.
         return cls._create(count, encoding)
 
     @classmethod
-    @cache
+    @lru_cache(maxsize=None, typed=True)
     def _create(
         cls,
         count: Union[int, type[_TSize], type[NET]],
-- 
2.43.0


From 05b057bd034186ae0c7629c2b6eb275dc215d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 29/36] fix: a union of typing aliases doesn't break the
 generated initializer on Python 3.9

---
 structured/structured.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index b08144d..f28a91e 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -117,6 +117,12 @@ def get_structured_base(cls: type[Structured]) -> Optional[type[Structured]]:
         return None
 
 
+def get_hint_name(annotation: Any) -> Optional[str]:
+    """Get the name of a type hint, or None if it doesn't have one."""
+    # Python 3.9 typing.Tuple, etc have no __name__, instead they have _name
+    return getattr(annotation, '__name__', None) or getattr(annotation, '_name', None)
+
+
 def gen_init(
     args: dict[str, Any],
     *,
@@ -139,19 +145,15 @@ def gen_init(
     args_items = []
     for name, annotation in args.items():
         if union_args := get_union_args(annotation):
-            union_text = ', '.join(arg.__name__ for arg in union_args)
-            args_items.append(f'{name}: Union[{union_text}]')
+            arg_names = tuple(map(get_hint_name, union_args))
+            ann_name = f'Union[{", ".join(arg_names)}]' if all(arg_names) else None
         else:
-            ann_name = getattr(annotation, '__name__', None)
-            if not ann_name:
-                # Python 3.9 typing.Tuple, etc have no __name__, instead they
-                # have _name
-                ann_name = getattr(annotation, '_name', None)
-            if ann_name:
-                args_items.append(f'{name}: {ann_name}')
-            else:
-                # Couldn't get the type-hint text
-                args_items.append(name)
+            ann_name = get_hint_name(annotation)
+        if ann_name:
+            args_items.append(f'{name}: {ann_name}')
+        else:
+            # Couldn't get the type-hint text
+            args_items.append(name)
     # Inner function text
     args_txt = ', '.join(args_items)
     def_txt = f' def __init__({args_txt}) -> None:'
-- 
2.43.0


From ce0b880d94ed9bbc4a5561da634ce08dc1401a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 30/36] fix: padding under a Condition is no attribute

---
 structured/structured.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index f28a91e..bb394ac 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -16,7 +16,12 @@ from functools import reduce
 from itertools import count
 
 from .base_types import ByteOrder, ByteOrderMode
-from .serializers import NullSerializer, Serializer, StructSerializer
+from .serializers import (
+    ConditionalSerializer,
+    NullSerializer,
+    Serializer,
+    StructSerializer,
+)
 from .type_checking import (
     Any,
     BinaryIO,
@@ -44,8 +49,10 @@ from .utils import StructuredAlias, attrgetter, zips
 
 
 def ispad(annotation: Any) -> bool:
-    """Detect pad[x] generated StructSerializers."""
+    """Detect pad[x] generated StructSerializers, conditional ones included."""
     serializer = annotated.transform(annotation)
+    while isinstance(serializer, ConditionalSerializer):
+        serializer = serializer.serializers[True]
     return (
         isinstance(serializer, StructSerializer)
         and serializer.num_values == 0
-- 
2.43.0


From 574fc2bbd3359bf8a6c3ce0c9e3d53b4e5fea625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 31/36] fix: refuse tuple values of a wrong length

---
 structured/serializers/tuples.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/structured/serializers/tuples.py b/structured/serializers/tuples.py
index 277e3af..ab6a7c7 100644
--- a/structured/serializers/tuples.py
+++ b/structured/serializers/tuples.py
@@ -42,7 +42,16 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
         self._partial_obj = partial_object
         return self
 
+    def _check_length(self, values: tuple[Unpack[Ts]]) -> None:
+        # NOTE: Not every serializer notices surplus values on its own.
+        if len(values) != self.serializer.num_values:
+            raise ValueError(
+                f'expected a tuple of {self.serializer.num_values} values, '
+                f'got {len(values)} values.'
+            )
+
     def pack(self, values: tuple[Unpack[Ts]]) -> bytes:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         data = serializer.pack(*values)
         self.size = serializer.size
@@ -51,11 +60,13 @@ class TupleSerializer(Generic[Unpack[Ts]], Serializer[Unpack[Ts]]):
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: tuple[Unpack[Ts]]
     ) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, values: tuple[Unpack[Ts]]) -> None:
+        self._check_length(values)
         serializer = self.serializer.prepack(self._partial_obj)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
-- 
2.43.0


From 826f9317065b5ba33a642746f53fcb470952c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 32/36] fix: consuming strings: accept the same values on every
 packing route

---
 structured/serializers/strings.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/structured/serializers/strings.py b/structured/serializers/strings.py
index 9ec35f6..ed747db 100644
--- a/structured/serializers/strings.py
+++ b/structured/serializers/strings.py
@@ -152,20 +152,19 @@ class ConsumingCharSerializer(Serializer[bytes]):
         return self
 
     def pack(self, *values: Unpack[tuple[bytes]]) -> bytes:
-        self.size = len(values[0])
-        return bytes(values[0])
+        # NOTE: memoryview to only accept bytes-like objects.
+        data = bytes(memoryview(values[0]))
+        self.size = len(data)
+        return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, *values: Unpack[tuple[bytes]]
     ) -> None:
-        data = values[0]
-        self.size = len(data)
+        data = self.pack(*values)
         struct.pack_into(f'{self.size}s', buffer, offset, data)
 
     def pack_write(self, writable: BinaryIO, *values: Unpack[tuple[bytes]]) -> None:
-        data = values[0]
-        self.size = len(data)
-        writable.write(data)
+        writable.write(self.pack(*values))
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[bytes]:
         self.size = len(buffer)
-- 
2.43.0


From 70bd6bfb8812d08337da133986bb5aaeac90a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 33/36] fix: resolve negative offsets against the whole buffer

---
 structured/structured.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/structured/structured.py b/structured/structured.py
index bb394ac..d4c0d78 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -130,6 +130,17 @@ def get_hint_name(annotation: Any) -> Optional[str]:
     return getattr(annotation, '__name__', None) or getattr(annotation, '_name', None)
 
 
+def absolute_offset(buffer: ReadableBuffer, offset: int) -> int:
+    """Resolve an offset that may be counted from the end of a buffer, so that
+    the members after the first can't wrap around to its start.
+    """
+    if offset < 0:
+        offset += len(buffer)
+        if offset < 0:
+            raise ValueError('offset out of range for the buffer.')
+    return offset
+
+
 def gen_init(
     args: dict[str, Any],
     *,
@@ -265,6 +276,7 @@ class Structured(metaclass=StructuredMeta):
         :param buffer: buffer to unpack from.
         :param offset: position in the buffer to start from.
         """
+        offset = absolute_offset(buffer, offset)
         for attr, value in zips(
             self.attrs, self._serializer(False).unpack_from(buffer, offset), strict=True
         ):
@@ -289,6 +301,7 @@ class Structured(metaclass=StructuredMeta):
         :param stream: buffer to pack into.
         :param offset: position in the buffer to start writing data to.
         """
+        offset = absolute_offset(buffer, offset)
         self._serializer(True).pack_into(buffer, offset, *type(self)._attrgetter(self))
 
     # Creation of objects from unpackable types
@@ -321,6 +334,7 @@ class Structured(metaclass=StructuredMeta):
         :param offset: Location in the buffer to begin unpacking.
         :return: A new Structured object unpacked from the buffer.
         """
+        offset = absolute_offset(buffer, offset)
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_from(buffer, offset))
         return cls(*proxy)
-- 
2.43.0


From f25b9d56f8a8e122c148b13813dcfc4e239c0b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 34/36] fix: generic classes that don't list Generic as a base
 explicitly can be specialized

---
 structured/structured.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/structured/structured.py b/structured/structured.py
index d4c0d78..348b5e2 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -27,7 +27,6 @@ from .type_checking import (
     BinaryIO,
     Callable,
     ClassVar,
-    Generic,
     Iterable,
     Iterator,
     Optional,
@@ -454,11 +453,11 @@ class Structured(metaclass=StructuredMeta):
         to be specialized with `args`,
         """
         supers: dict[type[Structured], Any] = {}
-        tvars = ()
+        # NOTE: not every generic class lists Generic as a base explicitly
+        tvars = getattr(cls, '__parameters__', ())
         for base in getattr(cls, '__orig_bases__', ()):
-            if (origin := get_origin(base)) is Generic:
-                tvars = get_args(base)
-            elif origin and issubclass(origin, Structured):
+            origin = get_origin(base)
+            if origin and issubclass(origin, Structured):
                 supers[origin] = base
         tvar_map = dict(zip(tvars, args))
         if not tvar_map:
-- 
2.43.0


From 22d8cb96303c90c5f330947fd5b62d7cfe514c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 35/36] fix: unions: an object packed or unpacked while
 deciding doesn't replace the object at hand

---
 structured/serializers/unions.py | 38 ++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/structured/serializers/unions.py b/structured/serializers/unions.py
index a388217..33619b0 100644
--- a/structured/serializers/unions.py
+++ b/structured/serializers/unions.py
@@ -90,7 +90,9 @@ class AUnion(Serializer):
         self._partial_object = partial_object
         return self
 
-    def get_serializer(self, decider_result: Any, packing: bool) -> Serializer:
+    def get_serializer(
+        self, decider_result: Any, packing: bool, partial_object: Any
+    ) -> Serializer:
         """Given a target used to decide, return a serializer used to unpack."""
         if self.default is None:
             try:
@@ -102,9 +104,9 @@ class AUnion(Serializer):
         else:
             serializer = self.result_map.get(decider_result, self.default)
         if packing:
-            return serializer.prepack(self._partial_object)
+            return serializer.prepack(partial_object)
         else:
-            return serializer.preunpack(self._partial_object)
+            return serializer.preunpack(partial_object)
 
     @staticmethod
     def _transform(base_type: Any, hint: Any) -> Any:
@@ -143,8 +145,10 @@ class LookbackDecider(AUnion):
         self.decider = decider
 
     def decide(self, packing: bool) -> Serializer:
-        result = self.decider(self._partial_object)
-        return self.get_serializer(result, packing)
+        # NOTE: deciding may pack or unpack other objects using this serializer
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        return self.get_serializer(result, packing, partial_object)
 
     def pack(self, *values: Any) -> bytes:
         serializer = self.decide(True)
@@ -213,21 +217,24 @@ class LookaheadDecider(AUnion):
         return union
 
     def pack(self, *values: Any) -> bytes:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        serializer = self.get_serializer(result, True, partial_object)
         data = serializer.pack(*values)
         self.size = serializer.size
         return data
 
     def pack_into(self, buffer: WritableBuffer, offset: int, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        serializer = self.get_serializer(result, True, partial_object)
         serializer.pack_into(buffer, offset, *values)
         self.size = serializer.size
 
     def pack_write(self, writable: BinaryIO, *values: Any) -> None:
-        result = self.decider(self._partial_object)
-        serializer = self.get_serializer(result, True)
+        partial_object = self._partial_object
+        result = self.decider(partial_object)
+        serializer = self.get_serializer(result, True, partial_object)
         serializer.pack_write(writable, *values)
         self.size = serializer.size
 
@@ -235,24 +242,27 @@ class LookaheadDecider(AUnion):
         return self.read_ahead_serializer.preunpack(self._partial_object)
 
     def unpack(self, buffer: ReadableBuffer) -> Iterable:
+        partial_object = self._partial_object
         result = tuple(self._read_ahead().unpack(buffer))[0]
-        serializer = self.get_serializer(result, False)
+        serializer = self.get_serializer(result, False, partial_object)
         values = tuple(serializer.unpack(buffer))
         self.size = serializer.size
         return values
 
     def unpack_from(self, buffer: ReadableBuffer, offset: int = 0) -> Iterable:
+        partial_object = self._partial_object
         result = tuple(self._read_ahead().unpack_from(buffer, offset))[0]
-        serializer = self.get_serializer(result, False)
+        serializer = self.get_serializer(result, False, partial_object)
         values = tuple(serializer.unpack_from(buffer, offset))
         self.size = serializer.size
         return values
 
     def unpack_read(self, readable: BinaryIO) -> Iterable:
+        partial_object = self._partial_object
         read_ahead = self._read_ahead()
         result = tuple(read_ahead.unpack_read(readable))[0]
         readable.seek(-read_ahead.size, os.SEEK_CUR)
-        serializer = self.get_serializer(result, False)
+        serializer = self.get_serializer(result, False, partial_object)
         values = tuple(serializer.unpack_read(readable))
         self.size = serializer.size
         return values
-- 
2.43.0


From 2447e88117009653bd11f2f18fc0deff5d4487e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 36/36] fix: nested objects: the size is that of the serializer
 the object was packed or unpacked with

---
 structured/serializers/structured.py | 12 +++++------
 structured/structured.py             | 31 ++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/structured/serializers/structured.py b/structured/serializers/structured.py
index 5132b1e..71ab26b 100644
--- a/structured/serializers/structured.py
+++ b/structured/serializers/structured.py
@@ -50,34 +50,34 @@ class StructuredSerializer(Generic[TStructured], Serializer[TStructured]):
 
     def pack(self, values: TStructured) -> bytes:
         data = values.pack()
-        self.size = values.serializer.size
+        self.size = type(values).__last_size__
         return data
 
     def pack_into(
         self, buffer: WritableBuffer, offset: int, values: TStructured
     ) -> None:
         values.pack_into(buffer, offset)
-        self.size = values.serializer.size
+        self.size = type(values).__last_size__
 
     def pack_write(self, writable: BinaryIO, values: TStructured) -> None:
         values.pack_write(writable)
-        self.size = values.serializer.size
+        self.size = type(values).__last_size__
 
     def unpack(self, buffer: ReadableBuffer) -> tuple[TStructured]:
         value = self.obj_type.create_unpack(buffer)
-        self.size = self.obj_type.serializer.size
+        self.size = type(value).__last_size__
         return (value,)
 
     def unpack_from(
         self, buffer: ReadableBuffer, offset: int = 0
     ) -> tuple[TStructured]:
         value = self.obj_type.create_unpack_from(buffer, offset)
-        self.size = self.obj_type.serializer.size
+        self.size = type(value).__last_size__
         return (value,)
 
     def unpack_read(self, readable: BinaryIO) -> tuple[TStructured]:
         value = self.obj_type.create_unpack_read(readable)
-        self.size = self.obj_type.serializer.size
+        self.size = type(value).__last_size__
         return (value,)
 
     @classmethod
diff --git a/structured/structured.py b/structured/structured.py
index 348b5e2..5d1ea79 100644
--- a/structured/structured.py
+++ b/structured/structured.py
@@ -224,6 +224,8 @@ class Structured(metaclass=StructuredMeta):
     attrs: ClassVar[tuple[str, ...]] = ()
     _attrgetter: ClassVar[Callable[[Structured], tuple[Any, ...]]]
     byte_order: ClassVar[ByteOrder] = ByteOrder.DEFAULT
+    # Size of the most recently packed or created instance
+    __last_size__: ClassVar[int] = 0
 
     def __post_init__(self) -> None:
         """Initialize any instance variables not handled by the Structured
@@ -283,7 +285,10 @@ class Structured(metaclass=StructuredMeta):
 
     def pack(self) -> bytes:
         """Pack the class's values according to the format string."""
-        return self._serializer(True).pack(*type(self)._attrgetter(self))
+        serializer = self._serializer(True)
+        data = serializer.pack(*type(self)._attrgetter(self))
+        type(self).__last_size__ = serializer.size
+        return data
 
     def pack_write(self, writable: BinaryIO) -> None:
         """Pack the class's values according to the format string, then write
@@ -291,7 +296,9 @@ class Structured(metaclass=StructuredMeta):
 
         :param writable: writable file-like object.
         """
-        self._serializer(True).pack_write(writable, *type(self)._attrgetter(self))
+        serializer = self._serializer(True)
+        serializer.pack_write(writable, *type(self)._attrgetter(self))
+        type(self).__last_size__ = serializer.size
 
     def pack_into(self, buffer: WritableBuffer, offset: int = 0):
         """Pack the class's values according to the format string, pkacing the
@@ -301,7 +308,9 @@ class Structured(metaclass=StructuredMeta):
         :param offset: position in the buffer to start writing data to.
         """
         offset = absolute_offset(buffer, offset)
-        self._serializer(True).pack_into(buffer, offset, *type(self)._attrgetter(self))
+        serializer = self._serializer(True)
+        serializer.pack_into(buffer, offset, *type(self)._attrgetter(self))
+        type(self).__last_size__ = serializer.size
 
     # Creation of objects from unpackable types
     @classmethod
@@ -312,6 +321,16 @@ class Structured(metaclass=StructuredMeta):
         proxy = _Proxy(cls)
         return proxy, cls.serializer.preunpack(proxy)
 
+    @classmethod
+    def _from_proxy(cls, proxy: _Proxy, serializer: Serializer) -> Self:
+        """Create the instance whose values were unpacked to `proxy`."""
+        # NOTE: Creating the instance may pack or unpack others (__post_init__),
+        # which changes the size of the serializer.
+        size = serializer.size
+        instance = cls(*proxy)
+        cls.__last_size__ = size
+        return instance
+
     @classmethod
     def create_unpack(cls, buffer: ReadableBuffer) -> Self:
         """Create a new instance, initialized with values unpacked from a
@@ -322,7 +341,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack(buffer))
-        return cls(*proxy)
+        return cls._from_proxy(proxy, serializer)
 
     @classmethod
     def create_unpack_from(cls, buffer: ReadableBuffer, offset: int = 0) -> Self:
@@ -336,7 +355,7 @@ class Structured(metaclass=StructuredMeta):
         offset = absolute_offset(buffer, offset)
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_from(buffer, offset))
-        return cls(*proxy)
+        return cls._from_proxy(proxy, serializer)
 
     @classmethod
     def create_unpack_read(cls, readable: BinaryIO) -> Self:
@@ -348,7 +367,7 @@ class Structured(metaclass=StructuredMeta):
         """
         proxy, serializer = cls._create_proxy()
         proxy(serializer.unpack_read(readable))
-        return cls(*proxy)
+        return cls._from_proxy(proxy, serializer)
 
     def __str__(self) -> str:
         """Descriptive representation of this class."""
-- 
2.43.0

