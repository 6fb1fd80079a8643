From 45369deaff8bf6d4336194d905be788437f60061 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 15:48:32 +0000
Subject: [PATCH 01/83] fix: honour writer options in hexfile.Writer.dumps()
 and dump()

Keyword options (record_type, s5record, start_address, ...) were accepted
but silently dropped.
---
 objutils/hexfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index cabd088..2dd6e73 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -332,7 +332,7 @@ class Writer(BaseType):
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length))
+        fp.write(self.dumps(image, row_length, **kws))
         if hasattr(fp, "close"):
             fp.close()
 
@@ -343,7 +343,7 @@ class Writer(BaseType):
             return b""
         if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
-        # params = self.set_parameters(**kws)
+        self.set_parameters(**kws)
         self.pre_processing(image)
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
-- 
2.43.0


From 97326aabf08773096d5d36f564d400f697fa254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:52 +0000
Subject: [PATCH 02/83] fix: ihex writer emits an extended address whenever the
 upper address part changes

The writer compared 16-bit offsets only, so a section whose offset happened to
continue the previous one was written into the wrong 64K page; data records
are also no longer allowed to run across a 64K boundary.
---
 objutils/ihex.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 7337044..8c896bd 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -122,8 +122,14 @@ class Writer(hexfile.Writer):
     def compose_row(self, address, length, row):
         result = ""
         seg, offs = divmod(address, 0x10000)
+        room = 0x10000 - offs
+        if length > room:  # Data records must not cross a 64K boundary.
+            return "{}\n{}".format(
+                self.compose_row(address, room, row[:room]),
+                self.compose_row(address + room, length - room, row[room:]),
+            )
         hi, lo = self.word_to_bytes(address)
-        if offs != self.previosAddress:
+        if address != self.previosAddress or offs == 0:
             # print("NEQ: {0:04x} [{1:04x}:{2:04x}]".format(address, seg, offs))
             if address > 0xFFFF:
                 if address > 0xFFFFF:
@@ -133,10 +139,9 @@ class Writer(hexfile.Writer):
                     seg = int(seg) << 12
                     segHi, segLo = self.word_to_bytes(seg)
                     result = f":02000002{int(seg):04X}{self.checksum(list((2, 2, segHi, segLo))):02X}\n"
-        address = offs
         checksum = self.checksum(list((length, hi, lo)) + list(row))
-        self.previosAddress = offs + length
-        result += f":{length:02X}{address:04X}{DATA:02X}{Writer.hex_bytes(row)!s}{checksum:02X}"
+        self.previosAddress = address + length
+        result += f":{length:02X}{offs:04X}{DATA:02X}{Writer.hex_bytes(row)!s}{checksum:02X}"
         return result
 
     def compose_footer(self, meta):
-- 
2.43.0


From 3a813cae4298fae93006849577d5af66e0bce47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:15 +0000
Subject: [PATCH 03/83] fix: Image accepts the valid flag passed by the readers

Loading plain binaries, or a hex file without any data record, raised a
TypeError because Image() does not know the keyword.
---
 objutils/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index abf2f87..117f2a3 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -66,11 +66,14 @@ class Image:
         The sections the image should initialized with.
     meta: object
         Arbitrary meta-data.
+    valid: bool
+        `False` if the image was created from a file without usable content.
     """
 
-    def __init__(self, sections=None, join=True, meta=None):
+    def __init__(self, sections=None, join=True, meta=None, valid=True):
         if meta is None:
             meta = {}
+        self.valid = valid
         if not sections:
             sections = []
         elif isinstance(sections, Section) or hasattr(sections, "__iter__"):
-- 
2.43.0


From c01c5982341f3a80ff54acd19c5cc9eb3c4138d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:17 +0000
Subject: [PATCH 04/83] fix: images ending at the last address of a format's
 range can be written

The address width was computed from the exclusive end address (and with
floating point logarithms).
---
 objutils/hexfile.py | 5 ++---
 objutils/srec.py    | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 2dd6e73..d076b20 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -24,7 +24,6 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
-import math
 import os
 import re
 from collections import defaultdict, namedtuple
@@ -368,8 +367,8 @@ class Writer(BaseType):
             last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
         else:
             last_segment = image
-        highest_address = last_segment.start_address + last_segment.length
-        return int(math.ceil(math.log(highest_address + 1) / math.log(2)))
+        highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
+        return highest_address.bit_length()
 
     def post_processing(self, data):
         if not data.endswith(b"\n"):
diff --git a/objutils/srec.py b/objutils/srec.py
index 229758e..0488057 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -153,7 +153,7 @@ class Writer(hexfile.Writer):
                 last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
             else:
                 last_segment = image
-            highest_address = last_segment.start_address + last_segment.length
+            highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
-- 
2.43.0


From f8df0798ee8648e4959136451af7e3e86e1e586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:31 +0000
Subject: [PATCH 05/83] fix: terminating record of sig and tek keeps a 16-bit
 address

---
 objutils/sig.py | 2 +-
 objutils/tek.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/sig.py b/objutils/sig.py
index 23c7120..9c3f8a6 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -65,7 +65,7 @@ class Writer(hexfile.Writer):
         )
         data_checksum = checksums.rotatedXOR(row, 8, checksums.ROTATE_LEFT)
         line = f":{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
 
     def compose_footer(self, meta):
diff --git a/objutils/tek.py b/objutils/tek.py
index 02dd6d0..d0cee8b 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -68,5 +68,5 @@ class Writer(hexfile.Writer):
 
         data_checksum = checksums.nibble_sum(row)
         line = f"/{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)!s}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
-- 
2.43.0


From 06737f134eb1ae72dc85d3a6db08d08ddafef80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:45 +0000
Subject: [PATCH 06/83] fix: string access never leaves the section

write_string() overran the end of the section (growing it) and shifted the
following bytes for multi-byte encodings; read_string() silently truncated.
---
 objutils/section.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index a1e8ea6..0a41c21 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -336,6 +336,8 @@ class Section:
             pos = length
         if pos == -1:
             raise TypeError("Unterminated String!!!")  # TODO: Testcase.
+        if offset + pos > self.length:
+            raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         return self.data[offset : offset + pos].decode(encoding=encoding)
 
     def write_string(self, addr, value, encoding="latin1", **kws):
@@ -343,10 +345,13 @@ class Section:
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
         if PYTHON_VERSION.major == 3:
-            self.data[offset : offset + len(value)] = bytes(value, encoding=encoding)
+            data = bytes(value, encoding=encoding)
         else:
-            self.data[offset : offset + len(value)] = bytes(value)
-        self.data[offset + len(value)] = 0
+            data = bytes(value)
+        data_size = len(data) + 1  # Including terminator.
+        if offset + data_size > self.length:
+            raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
+        self.data[offset : offset + data_size] = data + b"\x00"
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-- 
2.43.0


From 4e05a9fa2fb8f4c0a8dc138c4784027e08bf0149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:47 +0000
Subject: [PATCH 07/83] fix: read_numeric() supports bit_mask for dtype byte

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 0a41c21..efacf33 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -281,7 +281,7 @@ class Section:
 
     def apply_bitmask(self, data, dtype, bit_mask):
         """ """
-        dtype, byteorder = dtype.lower().strip().split("_")
+        dtype, byteorder = self._verify_dtype(dtype)
         byteorder = "little" if byteorder == "le" else "big"
         # type_size = TYPE_SIZES.get(dtype)
         data_size = len(data)
-- 
2.43.0


From b90cba0c9c9dfbfd9791aa8cda787e28c9f75e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:48 +0000
Subject: [PATCH 08/83] fix: sections created without data don't share one
 buffer

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index efacf33..777d0fd 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -186,7 +186,7 @@ class Section:
     """
 
     start_address = attr.ib(type=int, eq=True, order=True, default=0)
-    data = attr.ib(default=bytearray(), converter=_data_converter, eq=True, order=True)
+    data = attr.ib(factory=bytearray, converter=_data_converter, eq=True, order=True)
 
     def __attrs_post_init__(self):
         self.repr = reprlib.Repr()
-- 
2.43.0


From 26dd473e30ee66f46add81d123709be32fe3a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 09/83] fix: joining sections works on copies

join_sections() extended the buffers of the sections passed in, so building an
image from adjacent sections changed the caller's sections.
---
 objutils/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 777d0fd..d1832e0 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -448,9 +448,9 @@ def join_sections(sections):
         else:
             # Create a new section.
             if isinstance(sections, SortedList):
-                result_sections.add(Section(section.start_address, section.data))
+                result_sections.add(Section(section.start_address, section))
             else:
-                result_sections.append(Section(section.start_address, section.data))
+                result_sections.append(Section(section.start_address, section))
         prev_section = section
     if result_sections:
         return result_sections
-- 
2.43.0


From 82f4bce72a088f9b494ece0ab45c8a4a073966ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:33 +0000
Subject: [PATCH 10/83] fix: insert_section() refuses a section enclosing an
 existing one

Only the first and the last address of the new section were checked, so a
section spanning a smaller one was accepted, leaving overlapping sections.
---
 objutils/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index 117f2a3..27c98d4 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -220,7 +220,10 @@ class Image:
         -------
         bool
         """
-        return address in self or (address + length - 1) in self
+        return address in self or any(
+            address < section.start_address + section.length and section.start_address < address + length
+            for section in self.sections
+        )
 
     def insert_section(self, data, start_address=None, join=True):
         """Insert/add a new section to image.
-- 
2.43.0


From ca00e0ea3027c01740efa19501f74c118183ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 11/83] fix: signed LEB128 decoding sign-extends only negative
 numbers

Every positive number encoded in less than five bytes was decoded as a
negative one.
---
 objutils/dwarf/encoding.py | 2 +-
 objutils/readers.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 0d78ef1..14b2be4 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -105,7 +105,7 @@ class SLEB(Construct):
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
diff --git a/objutils/readers.py b/objutils/readers.py
index bfdbd51..a69bef3 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -114,7 +114,7 @@ class PlainBinaryReader:
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
-- 
2.43.0


From 4b5a675b28ec3929b95e135a982a878036bb1dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:57 +0000
Subject: [PATCH 12/83] fix: PlainBinaryReader reads 32-bit values in native
 byte order

With the default byte order the native size of 'L' (8 bytes) applied.
---
 objutils/readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/readers.py b/objutils/readers.py
index a69bef3..30a8022 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -75,7 +75,7 @@ class PlainBinaryReader:
         return self.value("H", 2)
 
     def u32(self):
-        return self.value("L", 4)
+        return self.value("I", 4)
 
     def u64(self):
         return self.value("Q", 8)
@@ -87,7 +87,7 @@ class PlainBinaryReader:
         return self.value("h", 2)
 
     def s32(self):
-        return self.value("l", 4)
+        return self.value("i", 4)
 
     def s64(self):
         return self.value("q", 8)
-- 
2.43.0


From b30aad0ad36ea3b91551e82078b2a0471bc65353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 13/83] fix: diff_bin() reports a modification at the end of
 the common part

---
 objutils/utils/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/utils/diff.py b/objutils/utils/diff.py
index 56b6c3c..54e7543 100644
--- a/objutils/utils/diff.py
+++ b/objutils/utils/diff.py
@@ -90,6 +90,8 @@ def diff_bin(a, b):
             if diff_bytes_a:
                 tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
                 diff_bytes_a, diff_bytes_b = bytearray(), bytearray()
+    if diff_bytes_a:
+        tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
     if lb > la:
         tmp.append(BinDiff("A", len(a), None, b[-(lb - la) :]))
     elif lb < la:
-- 
2.43.0


From 027b1a08b77781c4c8d4c6b80a7a9d5af10f5fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 14/83] fix: symbols.fetch() honours every requested symbol
 type

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e5ceb9..e123668 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -303,7 +303,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_COMMON)
                 elif item == "tls":
                     flt.append(defs.SymbolType.STT_TLS)
-                query = query.filter(model.Elf_Symbol.st_type.in_(flt))
+            query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
-- 
2.43.0


From 7982a2ce860e34f48206e8c279868c1ee3cc5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 15/83] fix: etek files can be read back

The writer's address field didn't have the width the reader expects, and the
reader calculated the length with a float division.
---
 objutils/etek.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index ed55daa..4028869 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,7 +47,7 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length / 2) - 5
+            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
@@ -76,10 +76,10 @@ class Reader(hexfile.Reader):
 
 
 class Writer(hexfile.Writer):
-    MAX_ADDRESS_BITS = 24
+    MAX_ADDRESS_BITS = 20
 
     def compose_row(self, address, length, row):
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
 
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:04X}{Writer.hex_bytes(row)!s}"
+        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:05X}{Writer.hex_bytes(row)!s}"
         return line
-- 
2.43.0


From cb1024a62c60d6f5942b9b1d5336c8834c287500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:22 +0000
Subject: [PATCH 16/83] fix: fpc writer emits the real byte count and pads to
 4-byte groups

The count was only right for rows of 12 up to 16 bytes.
---
 objutils/fpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 89affb8..1bc2759 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -142,11 +142,12 @@ class Writer(hexfile.Writer):
             8,
             checksums.COMPLEMENT_TWOS,
         )
-        if length < self.row_length:
-            lengthToPad = self.row_length - length
+        padded_length = -(-self.row_length // 4) * 4  # Lines are made up of 4-byte groups.
+        if length < padded_length:
+            lengthToPad = padded_length - length
             padding = [0] * (lengthToPad)
             row.extend(padding)
-        line = f"{checksum:02X}{length - 2}0000{address:08X}{Writer.hex_bytes(row)}"
+        line = f"{checksum:02X}{length + 4:02X}0000{address:08X}{Writer.hex_bytes(row)}"
         return line
 
     def compose_footer(self, meta):
-- 
2.43.0


From b0e4c5ec3f3659ecdfc105eac90d18e90796c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:24 +0000
Subject: [PATCH 17/83] fix: etek reader compares byte count and actual data
 exactly

---
 objutils/etek.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index 4028869..9ed7b0e 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,16 +47,15 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
                     6,
-                    ((line.length + 5) * 2),
+                    line.length,
                     line.chunk,
                 )
             )
-            if line.length != len(line.chunk):
+            if line.length != (len(line.chunk) + 5) * 2:
                 raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
             if line.checksum != checksum:
                 raise hexfile.InvalidRecordChecksumError()
-- 
2.43.0


From 7b0105ac7b4e6a1924624ea57fdbdf0c506cd497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 18/83] fix: ash addresses survive a round trip

The writer omitted the delimiter following an address, and the reader ignored
indented addresses, so data ended up at address zero.
---
 objutils/ash.py     | 3 ++-
 objutils/hexfile.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index e6d6996..8dc718c 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -55,7 +55,7 @@ class Reader(hexfile.ASCIIHexReader):
 
     def __init__(
         self,
-        address_pattern=r"^(?:(?P<stx>[\x02])\s+)?\$A(?P<address>[0-9a-zA-Z]{2,8})[,.]\s*$",
+        address_pattern=r"^\s*(?:(?P<stx>[\x02])\s+)?\$A(?P<address>[0-9a-zA-Z]{2,8})[,.]\s*$",
         data_pattern=r"^(?:[0-9a-zA-Z]{{2,4}}[{0}]?)*\s*$",
         etx_pattern=r"^q.*$",
     ):
@@ -65,6 +65,7 @@ class Reader(hexfile.ASCIIHexReader):
 class Writer(hexfile.ASCIIHexWriter):
     MAX_ADDRESS_BITS = 16
     ADDRESS_DESIGNATOR = "$A"
+    ADDRESS_TERMINATOR = ","
 
     def __init__(self, address_designator="$A"):
         super().__init__(address_designator)
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index d076b20..52510fe 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -470,6 +470,7 @@ class ASCIIHexReader(Reader):
 
 class ASCIIHexWriter(Writer):
     MAX_ADDRESS_BITS = 16
+    ADDRESS_TERMINATOR = ""
     previous_address = None
 
     def __init__(self, address_designator):
@@ -482,7 +483,7 @@ class ASCIIHexWriter(Writer):
         self.previous_address = address + length
         if prepend_address:
             line = "{}\n{}".format(
-                f"{self.address_designator}{address:04X}",
+                f"{self.address_designator}{address:04X}{self.ADDRESS_TERMINATOR}",
                 f"{self.separator}".join([f"{x:02X}" for x in row]),
             )
         else:
-- 
2.43.0


From b7b71f85e4a32e47ed47a35d98c2b44a4b12352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:08 +0000
Subject: [PATCH 19/83] fix: S0 records have a 16-bit address field regardless
 of the record type

---
 objutils/srec.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 0488057..226161c 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -166,10 +166,14 @@ class Writer(hexfile.Writer):
     def srecord(self, record_type, length, address, data=None):
         if data is None:
             data = []
-        length += self.offset
+        if record_type == 0:  # Header records always have a 16-bit address field.
+            offset, address_mask = 3, "%04X"
+        else:
+            offset, address_mask = self.offset, self.address_mask
+        length += offset
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-        mask = f"S%u%02X{self.address_mask!s}%s%02X"
+        mask = f"S%u%02X{address_mask!s}%s%02X"
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
-- 
2.43.0


From b5275dc3981115fee0dfbe87fd9a6afb885ef3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 20/83] fix: srec reader refuses data in records with a zero
 data count

---
 objutils/srec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 226161c..0688316 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -98,7 +98,7 @@ class Reader(hexfile.Reader):
         if line.checksum != checksum:
             raise hexfile.InvalidRecordChecksumError()
         line.length -= BIAS[format_type]  # calculate actual data length.
-        if hasattr(line, "chunk") and line.length and (line.length != len(line.chunk)):
+        if hasattr(line, "chunk") and line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
 
     def is_data_line(self, line, format_type):
-- 
2.43.0


From fb3c96f4fa3d4951fb2abed452748f41b6259206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:12 +0000
Subject: [PATCH 21/83] fix: srec writer refuses a record type too small for
 the image

Requesting e.g. S1 records for addresses above 0xFFFF produced malformed
records.
---
 objutils/srec.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 0688316..b8ae85f 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -148,18 +148,20 @@ class Writer(hexfile.Writer):
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
     def pre_processing(self, image):
+        if hasattr(image, "sections"):
+            last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
+        else:
+            last_segment = image
+        highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
         if self.record_type is None:
-            if hasattr(image, "sections"):
-                last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-            else:
-                last_segment = image
-            highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
                 self.record_type = 2
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
+        elif highest_address.bit_length() > (self.record_type + 1) * 8:
+            raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.record_type} records.")
         self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
         self.offset = self.record_type + 2
 
-- 
2.43.0


From cdb3dcd8de14cffe1612850373a98a09250e9311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 22/83] fix: writers refuse rows not fitting a record's length
 field

Row lengths above the maximum produced malformed records.
---
 objutils/cosmac.py  | 1 +
 objutils/etek.py    | 1 +
 objutils/fpc.py     | 1 +
 objutils/hexfile.py | 5 +++++
 objutils/rca.py     | 1 +
 objutils/srec.py    | 1 +
 6 files changed, 10 insertions(+)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index e20ae6d..4ad66a3 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -65,6 +65,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = None
 
     def compose_row(self, address, length, row):
         line = f"!M{address:04X} {Writer.hex_bytes(row)}"
diff --git a/objutils/etek.py b/objutils/etek.py
index 9ed7b0e..b6e2fd0 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -76,6 +76,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 20
+    MAX_ROW_LENGTH = 122
 
     def compose_row(self, address, length, row):
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
diff --git a/objutils/fpc.py b/objutils/fpc.py
index 1bc2759..08e0694 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -134,6 +134,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 251
 
     def compose_row(self, address, length, row):
         tmp = 0  # TODO: format type!?
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 52510fe..09f858b 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -325,6 +325,8 @@ class Reader(BaseType):
 
 
 class Writer(BaseType):
+    MAX_ROW_LENGTH = 255  # Data bytes per record, limited by the width of the length field.
+
     def __init__(self):
         self.logger = Logger("Writer")
 
@@ -352,6 +354,8 @@ class Writer(BaseType):
             rows = slicer(section.data, row_length, lambda x: [int(y) for y in x])
             for row in rows:
                 length = len(row)
+                if self.MAX_ROW_LENGTH is not None and length > self.MAX_ROW_LENGTH:
+                    raise InvalidRecordLengthError(f"records are limited to {self.MAX_ROW_LENGTH} data bytes.")
                 result.append(self.compose_row(address, length, row))
                 address += row_length
         footer = self.compose_footer(image.meta if hasattr(image, "meta") else {})
@@ -470,6 +474,7 @@ class ASCIIHexReader(Reader):
 
 class ASCIIHexWriter(Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = None
     ADDRESS_TERMINATOR = ""
     previous_address = None
 
diff --git a/objutils/rca.py b/objutils/rca.py
index a3f8a1d..809a3b9 100644
--- a/objutils/rca.py
+++ b/objutils/rca.py
@@ -51,6 +51,7 @@ class Reader(hexfile.Reader):
 class Writer(hexfile.Writer):
     SEPARATOR = "{!s}\x0d\x0a".format("\x00" * 48)
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = None
 
     def compose_row(self, address, length, row):
         return f"{address:04X} {Writer.hex_bytes(row)!s};"
diff --git a/objutils/srec.py b/objutils/srec.py
index b8ae85f..8ed3510 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -164,6 +164,7 @@ class Writer(hexfile.Writer):
             raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.record_type} records.")
         self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
         self.offset = self.record_type + 2
+        self.MAX_ROW_LENGTH = 255 - self.offset
 
     def srecord(self, record_type, length, address, data=None):
         if data is None:
-- 
2.43.0


From ab409307b8d7ef527bc677158c040d99505fd925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 23/83] fix: plain binary writer supports integer fillers

---
 objutils/binfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index cdbf28d..cd26222 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -76,10 +76,12 @@ class Writer:
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
             raise TypeError("filler must be of type 'bytes' or 'int'")
-        if isinstance(filler, bytes) and len(filler) > 1:
+        if isinstance(filler, bytes) and len(filler) != 1:
             raise TypeError("filler must be a single byte")
-        elif isinstance(filler, int) and filler > 255:
-            raise ValueError("filler must be in range 0..255")
+        elif isinstance(filler, int):
+            if not 0 <= filler <= 255:
+                raise ValueError("filler must be in range 0..255")
+            filler = bytes([filler])
         result = bytearray()
         previous_address = None
         previous_length = None
-- 
2.43.0


From ca5a4566627c40cce36f3db01bd27c94e8a442dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:52 +0000
Subject: [PATCH 24/83] fix: instantiating Registry again keeps the registered
 codecs

---
 objutils/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 6e9d1bb..a652f50 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -42,7 +42,8 @@ Codec = namedtuple("Codec", "Reader Writer description")
 
 class Registry(SingletonBase):
     def __init__(self):
-        self._codecs = OrderedDict()
+        if not hasattr(self, "_codecs"):  # Singleton, don't drop registered codecs.
+            self._codecs = OrderedDict()
 
     def __iter__(self):
         return iter(self._codecs.items())
-- 
2.43.0


From b2614d202f749e11c920c2d5242aac3d0d633900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 25/83] fix: codecs registered with upper-case letters can be
 looked up

---
 objutils/registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/registry.py b/objutils/registry.py
index a652f50..cebb410 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -61,6 +61,7 @@ class Registry(SingletonBase):
         return codec
 
     def register(self, name, readerClass, writerClass, description=""):
+        name = name.lower()  # Lookups are case-insensitive.
         if name in self.codecs:
             raise CodecAlreadyExistError(name)
         self._codecs[name] = Codec(readerClass, writerClass, description)
-- 
2.43.0


From 9a83112a366135d477a75864b57104c22217aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:52 +0000
Subject: [PATCH 26/83] fix: insert_section() counts bytes, not items, of wider
 arrays

---
 objutils/image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index 27c98d4..0324a60 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -248,14 +248,16 @@ class Image:
         start_address = (
             start_address if start_address is not None else self.address
         )  # If Address omitted, create continuous address space.
-        if self._address_contained(start_address, len(data)):
-            raise InvalidAddressError("Overlapping address-space")
         if isinstance(data, str):
             data = [ord(x) for x in data]  # array.array('B',data)
-        self._sections.add(Section(start_address, data))
+        section = Section(start_address, data)
+        if self._address_contained(start_address, section.length):
+            raise InvalidAddressError("Overlapping address-space")
+        end_address = start_address + section.length
+        self._sections.add(section)
         if join:
             self.join_sections()
-        self.address = start_address + len(data)
+        self.address = end_address
 
     @property
     def sections(self):
-- 
2.43.0


From f37c356d4243ca697c255d1d6333c8fb87cdc08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 27/83] fix: Section.write() never changes the section's length

---
 objutils/section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/section.py b/objutils/section.py
index d1832e0..5313b4b 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -257,6 +257,7 @@ class Section:
 
         data: array-like
         """
+        data = _data_converter(data)  # Count bytes, not items of wider arrays.
         length = len(data)
         offset = addr - self.start_address
         if offset < 0:
-- 
2.43.0


From 1091395e2954a4de66b90414f83642f6f018baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 28/83] fix: arrays of length zero have no elements

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 5313b4b..174fa09 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -226,7 +226,7 @@ class Section:
         """ """
         fmt, bo = self._verify_dtype(dtype)
 
-        if length > 1:
+        if length != 1:
             return f"{BYTEORDER.get(bo)}{length}{FORMATS.get(fmt)}"
         else:
             return f"{BYTEORDER.get(bo)}{FORMATS.get(fmt)}"
-- 
2.43.0


From 9381d8cdc983e3f75fdc9b8c680ac70268aee11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 29/83] fix: fpc reader refuses records shorter than their byte
 count

---
 objutils/fpc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 08e0694..b953262 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -96,6 +96,8 @@ class Reader(hexfile.Reader):
         if format_type == EOF:
             return True
         line.length -= 4
+        if line.length > len(line.chunk):
+            raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
         if line.length != len(line.chunk):
             line.chunk = line.chunk[: line.length]  # Cut padding.
         if format_type == DATA_ABS:
-- 
2.43.0


From efa6e529ac7d0e21ed2231682feec5c0d67de3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 30/83] fix: ihex and cosmac readers can be used for more than
 one file

---
 objutils/cosmac.py | 4 ++++
 objutils/ihex.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index 4ad66a3..1d9a7c9 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -43,6 +43,10 @@ class Reader(hexfile.Reader):
     previous_address = 0
     previous_length = 0
 
+    def read(self, fp):
+        self.previous_address = self.previous_length = 0
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         return True
 
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 8c896bd..2d6351d 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -49,6 +49,10 @@ class Reader(hexfile.Reader):
         super().__init__()
         self.segmentAddress = 0
 
+    def read(self, fp):
+        self._address_calculator = partial(operator.add, 0)  # Extended addresses don't outlive a file.
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         if line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
-- 
2.43.0


From 68fe8d8c3a9bf7e35de7fda3bb7f9c5b38a59eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 31/83] fix: srec, titxt and ash writers can be used for more
 than one image

---
 objutils/hexfile.py |  3 +++
 objutils/srec.py    | 26 ++++++++++++++------------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 09f858b..07eb90b 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -483,6 +483,9 @@ class ASCIIHexWriter(Writer):
         self.address_designator = address_designator
         super().__init__()
 
+    def pre_processing(self, image):
+        self.previous_address = None
+
     def compose_row(self, address, length, row):
         prepend_address = True if address != self.previous_address else False
         self.previous_address = address + length
diff --git a/objutils/srec.py b/objutils/srec.py
index 8ed3510..311b26f 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -153,17 +153,19 @@ class Writer(hexfile.Writer):
         else:
             last_segment = image
         highest_address = last_segment.start_address + max(last_segment.length, 1) - 1
-        if self.record_type is None:
+        record_type = self.record_type
+        if record_type is None:
             if highest_address <= 0x000000FFFF:
-                self.record_type = 1
+                record_type = 1
             elif highest_address <= 0x00FFFFFF:
-                self.record_type = 2
+                record_type = 2
             elif highest_address <= 0xFFFFFFFF:
-                self.record_type = 3
-        elif highest_address.bit_length() > (self.record_type + 1) * 8:
-            raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.record_type} records.")
-        self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
-        self.offset = self.record_type + 2
+                record_type = 3
+        elif highest_address.bit_length() > (record_type + 1) * 8:
+            raise hexfile.AddressRangeToLargeError(f"could not encode image using S{record_type} records.")
+        self.data_record_type = record_type  # Don't touch the option, writers could be used more than once.
+        self.address_mask = f"%0{(self.data_record_type + 1) * 2:d}X"
+        self.offset = self.data_record_type + 2
         self.MAX_ROW_LENGTH = 255 - self.offset
 
     def srecord(self, record_type, length, address, data=None):
@@ -181,7 +183,7 @@ class Writer(hexfile.Writer):
 
     def compose_row(self, address, length, row):
         self.record_count += 1
-        return self.srecord(self.record_type, length, address, row)
+        return self.srecord(self.data_record_type, length, address, row)
 
     def compose_header(self, meta):
         self.record_count = 0
@@ -196,19 +198,19 @@ class Writer(hexfile.Writer):
         if self.s5record:
             result.append(self.srecord(5, 0, self.record_count))
         if self.start_address is not None:
-            if self.record_type == 1:  # 16bit.
+            if self.data_record_type == 1:  # 16bit.
                 if S9 in meta:
                     s9 = meta[S9][0]
                     result.append(self.srecord(9, 0, s9.address))
                 else:
                     result.append(self.srecord(9, 0, self.start_address))
-            elif self.record_type == 2:  # 24bit.
+            elif self.data_record_type == 2:  # 24bit.
                 if S8 in meta:
                     s8 = meta[S8][0]
                     result.append(self.srecord(8, 0, s8.address))
                 else:
                     result.append(self.srecord(8, 0, self.start_address))
-            elif self.record_type == 3:  # 32bit.
+            elif self.data_record_type == 3:  # 32bit.
                 if S7 in meta:
                     s7 = meta[S7][0]
                     result.append(self.srecord(7, 0, s7.address))
-- 
2.43.0


From 522b09fc5496f3d1b666da50db397b22a125343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 32/83] fix: blank lines in ASCII hex files are no empty
 sections

---
 objutils/hexfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 07eb90b..6e9ef75 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -448,7 +448,8 @@ class ASCIIHexReader(Reader):
             self.address,
             bytearray([int(ch, 16) for ch in filter(lambda x: x, self.SPLITTER.split(line))]),
         )
-        self.sections.append(section)
+        if section.data:  # Blank lines hold no data.
+            self.sections.append(section)
         self.address += len(section)
         return True
 
-- 
2.43.0


From 4e0da7acbe5ca7c9b30eaf49fc7111bd5685bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:33 +0000
Subject: [PATCH 33/83] fix: fill the ELF cache in a single transaction

The cache was committed after each symbol table, so an interrupted (or
failing) first run left a cache with the right hash but without the
remaining symbols, which later runs took for complete.
---
 objutils/elf/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index e123668..ad20fdc 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -402,9 +402,14 @@ class ElfParser:
         self.db = model.Model(self.db_name)
         self.session = self.db.session
         if new_db:
-            meta = model.Meta(hash_value=hash_value)
-            self.session.add(meta)
-            self.load_data()
+            try:
+                meta = model.Meta(hash_value=hash_value)
+                self.session.add(meta)
+                self.load_data()
+            except Exception:
+                self.session.rollback()
+                self.db.close()
+                raise
         else:
             self._header = self.session.query(model.Elf_Header).first()
             self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
@@ -683,12 +688,7 @@ class ElfParser:
                 access=section_header.sh_flags if section_header else 0,
             )
             symbols.append(db_sym)
-        try:
-            self.session.bulk_save_objects(symbols)
-            self.session.commit()
-        except Exception as e:
-            self.session.rollback()
-            print(f"{e}")
+        self.session.bulk_save_objects(symbols)
 
     def _parse_comment(self, data):
         Line = Struct("line" / CString("ascii"), "pos" / Tell)
-- 
2.43.0


From 5e8c5089b4d258d94f4b332ac5aa01a1693f2ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 34/83] fix: ELF values of 2**63 and above

SQLite's integers are signed 64-bit: files with addresses in the upper half
of the address space (e.g. kernels) couldn't be loaded.
---
 objutils/elf/__init__.py |  8 ++++----
 objutils/elf/model.py    | 29 +++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index ad20fdc..6838a83 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -204,7 +204,7 @@ class SectionAPI(DBAPI):
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-            query = query.order_by(model.Elf_Section.sh_addr)
+            query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         else:
             query = query.order_by(model.Elf_Section.section_name)
         result = query.all()
@@ -308,7 +308,7 @@ class SymbolAPI(DBAPI):
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
-            query = query.order_by(model.Elf_Symbol.st_value)
+            query = query.order_by(*model.unsigned_order(model.Elf_Symbol.st_value))
         else:
             query = query.order_by(model.Elf_Symbol.symbol_name)
         for key, value in groupby(query.all(), lambda s: s.section_name):
@@ -329,7 +329,7 @@ class SymbolAPI(DBAPI):
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
         syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
-        return syms.order_by(model.Elf_Symbol.st_value).all()
+        return syms.order_by(*model.unsigned_order(model.Elf_Symbol.st_value)).all()
 
 
 def calculate_crypto_hash(data: bytes) -> str:
@@ -993,7 +993,7 @@ class ElfParser:
         if exclude_pattern:
             query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
 
-        query = query.order_by(model.Elf_Section.sh_addr)
+        query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         result = []
         if callback:
             callback("start", None)
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index f1817e2..c1491d2 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -87,9 +87,34 @@ table = Table(
 """
 
 
+class UnsignedInteger(types.TypeDecorator):
+    """64-bit unsigned integer.
+
+    Integers in SQLite are signed, larger values are stored as two's complement.
+    """
+
+    impl = types.INTEGER
+    cache_ok = True
+
+    def process_bind_param(self, value, dialect):
+        if value is not None and value >= 1 << 63:
+            value -= 1 << 64
+        return value
+
+    def process_result_value(self, value, dialect):
+        if value is not None and value < 0:
+            value += 1 << 64
+        return value
+
+
+def unsigned_order(column):
+    """`ORDER BY` criteria for columns of type `UnsignedInteger`."""
+    return (column < 0, column)
+
+
 def StdInteger(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UnsignedInteger,
         default=default,
         nullable=nullable,  # PassiveDefault(str(default))
         primary_key=primary_key,
@@ -112,7 +137,7 @@ def StdNumeric(default=0, primary_key=False, unique=False, nullable=False, index
 
 def StdBigInt(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UnsignedInteger,
         default=default,
         nullable=nullable,
         primary_key=primary_key,
-- 
2.43.0


From 12d78041e0bbea90c5a51c8d6d7e7783679e25e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 35/83] fix: ELF notes

Names are padded to a multiple of four bytes, may be empty, and a section may
contain more than one note; several sections of the same name no longer
collide.
---
 objutils/elf/__init__.py | 27 +++++++++++++++++----------
 objutils/elf/model.py    |  2 +-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 6838a83..cb3f1d8 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -36,6 +36,7 @@ from pathlib import Path
 
 from construct import (
     Adapter,
+    Aligned,
     Array,
     BitsInteger,
     BitStruct,
@@ -537,8 +538,7 @@ class ElfParser:
                 self._sections_by_name[name] = section
                 image = self._images[idx]
                 if section.sh_type == defs.SectionType.SHT_NOTE:
-                    note_obj = self._parse_note(image)
-                    if note_obj:
+                    for note_obj in self._parse_notes(image):
                         note = model.Elf_Note(
                             section_name=name,
                             type=note_obj.type,
@@ -707,19 +707,26 @@ class ElfParser:
             i += line.pos
         return "\n".join(result)
 
-    def _parse_note(self, data):
+    def _parse_notes(self, data):
         Note = Struct(
             "namesz" / self.Word,
             "descsz" / self.Word,
             "type" / self.Word,
-            "name" / Bytes(this.namesz),
+            "name" / Aligned(4, Bytes(this.namesz)),
             "desc" / Bytes(this.descsz),
+            "stop" / Tell,
         )
-        if not data:
-            return None
-        result = Note.parse(data)
-        result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = self.asciiCString.parse(result.name)
+        result = []
+        while data:
+            try:
+                note = Note.parse(data)
+            except StreamError as e:
+                print(f"parse note section: {e}")
+                break
+            note.desc = binascii.b2a_hex(note.desc).decode()
+            note.name = note.name.partition(b"\x00")[0].decode("ascii")
+            result.append(note)
+            data = data[(note.stop + 3) & ~3 :]
         return result
 
     def debug_sections(self):
@@ -922,7 +929,7 @@ class ElfParser:
 
     @property
     def notes(self):
-        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name).all()
+        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name, model.Elf_Note.rid).all()
         if notes:
             return notes
         else:
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index c1491d2..7360c60 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -405,7 +405,7 @@ class Elf_Comment(Base, RidMixIn):
 class Elf_Note(Base, RidMixIn):
     """ """
 
-    section_name = Column(types.VARCHAR, unique=True)
+    section_name = Column(types.VARCHAR)
     type = StdInteger()
     name = Column(types.VARCHAR)
     desc = Column(types.VARCHAR)
-- 
2.43.0


From 3dc3b8048093b635367c4272999badd4dc41ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 36/83] fix: header_bytes of ElfParser

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index cb3f1d8..e2cf6fe 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -849,7 +849,7 @@ class ElfParser:
 
     @property
     def header_bytes(self):
-        return self._basic_header.header.bytes
+        return bytes(self.fp[: self.EI_NIDENT])
 
     @property
     def e_type(self):
-- 
2.43.0


From d282b599e7c331978625ba668cbe3f4b8f74fd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 37/83] fix: sections.fetch() honours its 'sections' argument

---
 objutils/elf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index e2cf6fe..f3604b4 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -202,6 +202,9 @@ class SectionAPI(DBAPI):
         """
 
         query = self.query(model.Elf_Section)
+        if sections:
+            sections = [s for s in re.split(r"[ ,]", sections) if s]
+            query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-- 
2.43.0


From de9e6d179fda6d2edb3a7b559e756518247e90f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 38/83] fix: ELF files with empty symbol or string tables

---
 objutils/elf/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index f3604b4..963d801 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -578,9 +578,10 @@ class ElfParser:
             self.session.bulk_save_objects(sections)
 
     def get_string(self, table_index, entry):
-        if entry > len(self._images[table_index]):
+        table = self._images.get(table_index)
+        if not table or entry >= len(table):
             return ""
-        name = self.asciiCString.parse(self._images[table_index][entry:])
+        name = self.asciiCString.parse(table[entry:])
         return name
 
     def _parse_program_headers(self):
@@ -662,7 +663,7 @@ class ElfParser:
             )
         symbol_cache = {}
         # num_symbols = len(section.image) // Symbol.sizeof()
-        for offset in range(0, len(section.image), Symbol.sizeof()):
+        for offset in range(0, len(section.image or b""), Symbol.sizeof()):
             try:
                 sym = Symbol.parse(section.image[offset : offset + Symbol.sizeof()])
             except StreamError as e:
-- 
2.43.0


From d3707397a596dfd447e9f88495765fd838377f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:42 +0000
Subject: [PATCH 39/83] fix: ELF names are UTF-8

---
 objutils/elf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 963d801..5a2e557 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -460,7 +460,7 @@ class ElfParser:
 
         self._images = {}
         self._sections_by_name = OrderedDict()
-        self.asciiCString = CString(encoding="ascii")
+        self.utf8CString = CString(encoding="utf8")
 
         self.create_db_on_demand()
 
@@ -581,7 +581,7 @@ class ElfParser:
         table = self._images.get(table_index)
         if not table or entry >= len(table):
             return ""
-        name = self.asciiCString.parse(table[entry:])
+        name = self.utf8CString.parse(table[entry:])
         return name
 
     def _parse_program_headers(self):
-- 
2.43.0


From c2341ba46a9d81a07763e59e6a533640ad2e5f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 40/83] fix: ELF predicates weak, local, global_, is_debug,
 is_dwo

---
 objutils/elf/model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 7360c60..5e79a65 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -215,11 +215,11 @@ class Elf_Section(Base, RidMixIn):
 
     @hybrid_property
     def is_debug(self):
-        return self.section_name.starts_with(".debug")
+        return self.section_name.startswith(".debug")
 
     @hybrid_property
     def is_dwo(self):
-        return self.section_name.starts_with(".dwo")
+        return self.section_name.startswith(".dwo")
 
     @hybrid_property
     def has_content(self):
@@ -345,7 +345,7 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def weak(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_WEAK
+        return self.st_bind == defs.SymbolBinding.STB_WEAK
 
     @hybrid_property
     def absolute(self):
@@ -357,11 +357,11 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def local(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_LOCAL
+        return self.st_bind == defs.SymbolBinding.STB_LOCAL
 
     @hybrid_property
     def global_(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_GLOBAL
+        return self.st_bind == defs.SymbolBinding.STB_GLOBAL
 
     @hybrid_method
     def get_access(self):
-- 
2.43.0


From 16d5defb0f02d40b4aaac5874f63225d9b5a56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 41/83] fix: ARM attribute values without a description

---
 objutils/elf/arm/attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 3bc99c1..bab91ae 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -465,7 +465,7 @@ def parse(buffer, byteorder="<"):
             attr = RawAttribute.parse(res.data[j:])
             r = Attribute(attr.tag, attr.name, attr.value)
             if attr._conv != Ident:
-                r.description = attr._conv[attr.value]
+                r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
             j += attr.pos
         if i >= length:
-- 
2.43.0


From 48716b8191a37df0e3f7e4b9d011d2123abad2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 42/83] fix: unknown tags in ARM attributes

---
 objutils/elf/arm/attributes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index bab91ae..63a6e3e 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -405,6 +405,13 @@ class Attribute:
         )
 
 
+def attribute_description(tag):
+    """Unknown tags: parameters of odd ones are strings, those of even ones are numbers."""
+    if tag in ATTRIBUTES:
+        return ATTRIBUTES[tag]
+    return AttributeDescription(f"Tag_{tag}", tag, Reader.CSTRING if tag & 1 else Reader.ULEB, Ident)
+
+
 def parse(buffer, byteorder="<"):
     """
     Parameters
@@ -437,9 +444,9 @@ def parse(buffer, byteorder="<"):
 
     RawAttribute = Struct(
         "tag" / ULEB,
-        "parameterType" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].parameterType),
-        "name" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].tag),
-        "_conv" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].conv),
+        "parameterType" / Computed(lambda ctx: attribute_description(ctx.tag).parameterType),
+        "name" / Computed(lambda ctx: attribute_description(ctx.tag).tag),
+        "_conv" / Computed(lambda ctx: attribute_description(ctx.tag).conv),
         "value"
         / Switch(
             this.parameterType,
-- 
2.43.0


From 92baf6bc393ff1e917b560fe60e2f31cbebd3161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 43/83] fix: visibility of ELF symbols is in the low bits of
 st_other

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 5e79a65..68381fb 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -334,14 +334,14 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def hidden(self):
-        return self.st_other in (
+        return self.st_other & 3 in (
             defs.SymbolVisibility.STV_HIDDEN,
             defs.SymbolVisibility.STV_INTERNAL,
         )
 
     @hidden.expression
     def hidden(self):
-        return self.st_other.in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
+        return self.st_other.op("&")(3).in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
 
     @hybrid_property
     def weak(self):
-- 
2.43.0


From 80bc268a2c5542fc51d9842251cb65fdc3d307fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 44/83] fix: memory mapped files leak their file descriptors

---
 objutils/utils/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index b086681..d466597 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -179,4 +179,7 @@ class SingletonBase:
 def create_memorymapped_fileview(filename, writeable=False):
     size = os.path.getsize(filename)
     fd = os.open(filename, os.O_RDWR if writeable else os.O_RDONLY)
-    return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    try:
+        return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    finally:
+        os.close(fd)
-- 
2.43.0


From bc31901af04fb6b11ca5cf827eb3b570dd477b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:50 +0000
Subject: [PATCH 45/83] fix: name patterns for ELF sections and symbols

Since SQLAlchemy 1.4 the REGEXP function registered here is replaced by
SQLAlchemy's one, which takes its arguments the other way around: names were
used as patterns.
---
 objutils/elf/__init__.py | 10 +++++-----
 objutils/elf/model.py    |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 5a2e557..1409f9c 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -206,7 +206,7 @@ class SectionAPI(DBAPI):
             sections = [s for s in re.split(r"[ ,]", sections) if s]
             query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
+            query = query.filter(func.regex_match(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
             query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         else:
@@ -309,7 +309,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_TLS)
             query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
+            query = query.filter(func.regex_match(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
             query = query.order_by(*model.unsigned_order(model.Elf_Symbol.st_value))
@@ -331,7 +331,7 @@ class SymbolAPI(DBAPI):
         """
         syms = self.query(model.Elf_Symbol).filter(model.Elf_Symbol.st_shndx == defs.SectionName.SHN_ABS)
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
-        syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
+        syms = syms.filter(func.regex_match(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
         return syms.order_by(*model.unsigned_order(model.Elf_Symbol.st_value)).all()
 
@@ -999,10 +999,10 @@ class ElfParser:
         # print("SECTIONS", sections)
 
         if include_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, include_pattern))
+            query = query.filter(func.regex_match(model.Elf_Section.section_name, include_pattern))
 
         if exclude_pattern:
-            query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
+            query = query.filter(not_(func.regex_match(model.Elf_Section.section_name, exclude_pattern)))
 
         query = query.order_by(*model.unsigned_order(model.Elf_Section.sh_addr))
         result = []
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 68381fb..9d7e87a 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -480,7 +480,8 @@ def regexer(value, expr):
 
 @event.listens_for(Engine, "connect")
 def set_sqlite3_pragmas(dbapi_connection, connection_record):
-    dbapi_connection.create_function("REGEXP", 2, regexer)
+    # NB: SQLAlchemy comes with its own REGEXP (arguments are vice versa).
+    dbapi_connection.create_function("REGEX_MATCH", 2, regexer)
     cursor = dbapi_connection.cursor()
     # cursor.execute("PRAGMA jornal_mode=WAL")
     cursor.execute("PRAGMA FOREIGN_KEYS=ON")
-- 
2.43.0


From 70f93638542ed2d82c2c2ea532b38185562a4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 46/83] fix: segment types live in defs.ProgramHeader

---
 objutils/elf/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 1409f9c..cd3547c 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -753,11 +753,11 @@ class ElfParser:
         has_dynamic_size = False
         valid_segment = (
             ((section_header.sh_flags & defs.SectionFlags.SHF_TLS) != 0)
-            and (segment.p_type == defs.PT_TLS or segment.p_type == defs.PT_GNU_RELRO or segment.p_type == defs.PT_LOAD)
+            and (segment.p_type == defs.ProgramHeader.PT_TLS or segment.p_type == defs.ProgramHeader.PT_GNU_RELRO or segment.p_type == defs.ProgramHeader.PT_LOAD)
             or (
                 (section_header.sh_flags & defs.SectionFlags.SHF_TLS) == 0
-                and segment.p_type != defs.PT_TLS
-                and segment.p_type != defs.PT_PHDR
+                and segment.p_type != defs.ProgramHeader.PT_TLS
+                and segment.p_type != defs.ProgramHeader.PT_PHDR
             )
         )
         has_offset = section_header.sh_type == defs.SectionType.SHT_NOBITS or (
@@ -775,7 +775,7 @@ class ElfParser:
             )
         )
         has_dynamic_size = (
-            segment.p_type != defs.PT_DYNAMIC
+            segment.p_type != defs.ProgramHeader.PT_DYNAMIC
             or section_header.sh_size != 0
             or segment.p_memsz == 0
             or (
@@ -817,7 +817,7 @@ class ElfParser:
         return (
             (section_header.sh_flags & defs.SectionFlags.SHF_TLS) != 0
             and section_header.sh_type == defs.SectionType.SHT_NOBITS
-            and segment.p_type != defs.PT_TLS
+            and segment.p_type != defs.ProgramHeader.PT_TLS
         )
 
     def section_size(self, section_header, segment):
-- 
2.43.0


From 6d87be16843a42a2ba32ff39b6679b6a91a5b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 47/83] fix: DEL is not printable

---
 objutils/hexdump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index 0107393..feacb77 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -28,7 +28,7 @@ import sys
 
 
 def isprintable(ch) -> bool:
-    return 0x1F < ch < 0x80
+    return 0x1F < ch < 0x7F
 
 
 def unpack(*args):
-- 
2.43.0


From 0b8651138fe8cd3ab252280c4990e92cfddfd3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 48/83] fix: hexdumps of further sections start anew

---
 objutils/hexdump.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index feacb77..ba82d3c 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -46,6 +46,8 @@ class Dumper:
 
     def dump_data(self, section, offset=0):
         end = section.length
+        self.previous_row = b""
+        self.elided = False
         # line_count = math.ceil(len(section.data) / self.LINE_LENGTH)
         start_pos = 0
         line_num = 0
-- 
2.43.0


From cef8047498a0364f0966ae7aac923f2087949c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 49/83] fix: word sums of lists of integers

---
 objutils/checksums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/checksums.py b/objutils/checksums.py
index fcbf715..9c1f8f0 100644
--- a/objutils/checksums.py
+++ b/objutils/checksums.py
@@ -756,7 +756,7 @@ def wordSum(modulus, step):
             mask = "<I"
         else:
             raise NotImplementedError("Only WORDs or DWORDs are supported.")
-        x = [struct.unpack(mask, frame[x : x + step])[0] for x in range(0, len(frame), step)]
+        x = [struct.unpack(mask, bytes(frame[x : x + step]))[0] for x in range(0, len(frame), step)]
         return sum(x) % modulus
 
     return add
-- 
2.43.0


From 2fe8c44663cb4da3eeeb5f120a82d8ff634e798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:07 +0000
Subject: [PATCH 50/83] fix: subclasses of singletons are singletons of their
 own

---
 objutils/utils/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index d466597..d0b8903 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -166,10 +166,10 @@ class SingletonBase:
 
     def __new__(cls, *args, **kws):
         # Double-Checked Locking
-        if not hasattr(cls, "_instance"):
+        if "_instance" not in cls.__dict__:
             try:
                 cls._lock.acquire()
-                if not hasattr(cls, "_instance"):
+                if "_instance" not in cls.__dict__:
                     cls._instance = super().__new__(cls)
             finally:
                 cls._lock.release()
-- 
2.43.0


From bb8ff5241550156c343bb11201461d7d06e8ce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 51/83] fix: null entries end a list of children

---
 objutils/dwarf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4f51d3d..ff97cce 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -744,6 +744,8 @@ class DwarfProcessor:
                 if not abbr:
                     print(f"<{start:2x}>: Abbrev Number: 0 ---")
                     level -= 1
+                    if len(die_stack) > 1:
+                        die_stack.pop()
                 else:
                     die = DebugInformationEntry(abbr.tag)
                     db_die = model.DebugInformationEntry(tag=abbr.tag)
-- 
2.43.0


From 9d59eff6891cff98b3652438dc35a6ad6552ff22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 52/83] fix: map of DWARF entries misses the last entry of a
 unit

---
 objutils/dwarf/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index ff97cce..7b8df7b 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -753,7 +753,7 @@ class DwarfProcessor:
                     if attr.attr != 0:
                         die_stack[-1].children.append(die)
                     print(f"{'   ' * (level + 1)}<{level}><{start:02x}>: Abbrev Number: {attr.attr} ({abbr.tag})")
-                    die_start = start
+                    die_map[start] = die
                     if abbr.children:
                         die_stack.append(die)
                         level += 1
@@ -849,7 +849,6 @@ class DwarfProcessor:
                         break
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
-                die_map[die_start] = die
             result.append(root_element)
         self.db_session.commit()
         return DebugInformation(die_map, [d.children[0] for d in result])
-- 
2.43.0


From 55e605d34654ebf9f811209dc64ac3f9e23062b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 53/83] fix: last DWARF entry of a section may be a single byte

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 7b8df7b..7714a9c 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -737,7 +737,7 @@ class DwarfProcessor:
                 start = image.tell()
                 if start >= dbgInfo.start + cu_length + 4:
                     break
-                if start >= section_length - 1:
+                if start >= section_length:
                     break
                 attr = Attribute.parse_stream(image)
                 abbr = self.abbrevations.get(debug_abbrev_offset, attr.attr)
-- 
2.43.0


From 28af053da555a4b56b3978a594d95b34014ad0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 54/83] fix: attributes behind a DW_FORM_implicit_const at the
 end of a unit

---
 objutils/dwarf/__init__.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 7714a9c..d6389be 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -783,10 +783,6 @@ class DwarfProcessor:
                                 db_die.attributes.append(
                                     model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
                                 )
-                                offset += attr.stop - attr.start
-                                pos = image.tell()
-                                if pos >= dbgInfo.start + cu_length + 4:
-                                    break
                                 continue
                             else:
                                 print("*EF", enc, form, start, attr, abbr)
-- 
2.43.0


From dc727ebaa9fe55c1ea3d43d74b61c2d5189333d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 55/83] fix: DW_FORM_implicit_const is a signed number

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index d6389be..d20a29f 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -188,7 +188,7 @@ class Abbrevations:
 
     SpecialValueStruct = Struct(
         "start" / Tell,
-        "value" / ULEB,
+        "value" / SLEB,
         "stop" / Tell,
     )
 
-- 
2.43.0


From 0b18621c03868b936f08504b5d180d08d71a3c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 56/83] fix: DWARF values of 2**63 and above

---
 objutils/dwarf/__init__.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index d20a29f..c10affd 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -111,6 +111,11 @@ def encoding_repr(encoding, value):
         return f"Unknown encoding value ({value})"
 
 
+def database_value(value):
+    """Values are stored as text; SQLite itself only converts integers of up to 64 bits."""
+    return str(value) if isinstance(value, int) else value
+
+
 @dataclass(frozen=True)
 class Attribute:
     encoding: constants.AttributeEncoding
@@ -781,7 +786,11 @@ class DwarfProcessor:
                                     )
                                 )
                                 db_die.attributes.append(
-                                    model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
+                                    model.DIEAttribute(
+                                        name=enc.name,
+                                        raw_value=database_value(value),
+                                        display_value=database_value(display_value),
+                                    )
                                 )
                                 continue
                             else:
@@ -838,7 +847,13 @@ class DwarfProcessor:
                                 DIEAttribute(value, display_value),
                             )
                         )
-                        db_die.attributes.append(model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value))
+                        db_die.attributes.append(
+                            model.DIEAttribute(
+                                name=enc.name,
+                                raw_value=database_value(value),
+                                display_value=database_value(display_value),
+                            )
+                        )
                     offset += attr.stop - attr.start
                     pos = image.tell()
                     if pos >= dbgInfo.start + cu_length + 4:
-- 
2.43.0


From 919476b68a843d2fc0df5c29d0d5f3a53c891e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 57/83] fix: enumerated DWARF attributes given as blocks

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index c10affd..44879ff 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -823,7 +823,7 @@ class DwarfProcessor:
                                 except Exception:
                                     print("VALUE", value, enc, form)
                                     raise
-                        elif enc in ENCODED_ATTRIBUTES:
+                        elif enc in ENCODED_ATTRIBUTES and isinstance(value, int):
                             res = encoding_repr(enc, value)
                             display_value = f"{res} (0x{value:08x})"
                         else:
-- 
2.43.0


From 771f70fc29613a8cc1e3c37f027806129d94d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 58/83] fix: vendor specific DWARF attributes with a constant
 of their own

---
 objutils/dwarf/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 44879ff..8234dae 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -257,9 +257,13 @@ class Abbrevations:
                     offset += attr.stop - attr.start
                     special_value = self.SpecialValueStruct.parse(self.image[offset:])
                     offset += special_value.stop - special_value.start
+                    try:
+                        encoding = constants.AttributeEncoding(attr.attrValue)
+                    except TypeError:
+                        encoding = constants.FakeEncoding(attr.attrValue)
                     self.abbrevations[key].attrs.append(
                         Attribute(
-                            constants.AttributeEncoding(attr.attrValue),
+                            encoding,
                             constants.AttributeForm(attr.formValue),
                             special_value.value,
                         )
-- 
2.43.0


From e212493e2b33c6f235267fb061ebd06da1901386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 59/83] fix: operands of DWARF operations followed by a block

---
 objutils/dwarf/sm.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 53208be..b4edbde 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -117,9 +117,7 @@ class OperationBase:
             self.result.append(data)
         if self.result and self.ARRAY_SIZE is not None:
             length = self.result[self.ARRAY_SIZE]
-            self.data_block = Array(length, self.u8).parse_stream(image)
-            print("*** DATA_BLOCK:", self.data_block)
-            raise RuntimeError()
+            self.data_block = bytes(Array(length, OperationBase.READERS["u8"]).parse_stream(image))
 
     @property
     def value(self):
@@ -136,6 +134,8 @@ class OperationBase:
                     params.append(f"0x{param:08x}")
                 else:
                     params.append(f"{param}")
+            if self.data_block is not None:
+                params.append(f"[{self.data_block.hex(' ')}]")
             return f"{self.DISPLAY_NAME}({', '.join(params)})"
         else:
             return f"{self.DISPLAY_NAME}()"
@@ -975,6 +975,7 @@ class Bit_Piece(OperationBase):
 class Implicit_Value(OperationBase):
     DISPLAY_NAME = "implicit_value"
     PARAMETERS = ["uleb"]
+    ARRAY_SIZE = 0
 
 
 class Stack_Value(OperationBase):
@@ -999,11 +1000,13 @@ class Constx(OperationBase):
 class Entry_Value(OperationBase):
     DISPLAY_NAME = "entry_value"
     PARAMETERS = ["uleb"]
+    ARRAY_SIZE = 0
 
 
 class Const_Type(OperationBase):
     DISPLAY_NAME = "const_type"
     PARAMETERS = ["uleb", "u8"]
+    ARRAY_SIZE = 1
 
 
 class Regval_Type(OperationBase):
@@ -1058,11 +1061,13 @@ class Gnu_Implicit_Pointer(OperationBase):
 class Gnu_Entry_Value(OperationBase):
     DISPLAY_NAME = "GNU_entry_value"
     PARAMETERS = ["uleb"]
+    ARRAY_SIZE = 0
 
 
 class Gnu_Const_Type(OperationBase):
     DISPLAY_NAME = "GNU_const_type"
-    PARAMETERS = ["uleb", "u8", "block1"]
+    PARAMETERS = ["uleb", "u8"]
+    ARRAY_SIZE = 1
 
 
 class Gnu_Regval_Type(OperationBase):
-- 
2.43.0


From 864603bd44b9d02cd6d8afac0bfcb87c1988244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 60/83] fix: DWARF operations referring to other entries have
 offsets of four bytes

---
 objutils/dwarf/sm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index b4edbde..898576a 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -956,7 +956,7 @@ class Call4(OperationBase):
 
 class Call_Ref(OperationBase):
     DISPLAY_NAME = "call_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Form_Tls_Address(OperationBase):
@@ -984,7 +984,7 @@ class Stack_Value(OperationBase):
 
 class Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "implicit_pointer"
-    PARAMETERS = ["native_address", "sleb"]
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Addrx(OperationBase):
@@ -1092,7 +1092,7 @@ class Gnu_Reinterpret(OperationBase):
 
 class Gnu_Parameter_Ref(OperationBase):
     DISPLAY_NAME = "GNU_parameter_ref"
-    PARAMETERS = ["native_address"]
+    PARAMETERS = ["u32"]
 
 
 class Gnu_Addr_Index(OperationBase):
-- 
2.43.0


From 205649f3c41b0cfecb6c74288397ebd2294e184e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 61/83] fix: operands of GNU_implicit_pointer, GNU_addr_index
 and GNU_const_index

---
 objutils/dwarf/sm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 898576a..c184889 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -1056,6 +1056,7 @@ class Gnu_Encoded_Addr(OperationBase):
 
 class Gnu_Implicit_Pointer(OperationBase):
     DISPLAY_NAME = "GNU_implicit_pointer"
+    PARAMETERS = ["u32", "sleb"]
 
 
 class Gnu_Entry_Value(OperationBase):
@@ -1097,10 +1098,12 @@ class Gnu_Parameter_Ref(OperationBase):
 
 class Gnu_Addr_Index(OperationBase):
     DISPLAY_NAME = "GNU_addr_index"
+    PARAMETERS = ["uleb"]
 
 
 class Gnu_Const_Index(OperationBase):
     DISPLAY_NAME = "GNU_const_index"
+    PARAMETERS = ["uleb"]
 
 
 class Hp_Unknown(OperationBase):
-- 
2.43.0


From 536172cf74bd61eaf739924d719c695192eddde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 62/83] fix: byte order and address size belong to one DWARF
 stack machine

---
 objutils/dwarf/sm.py | 40 +++++-----------------------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index c184889..5877e15 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -78,46 +78,16 @@ class OperationBase:
     PARAMETERS = []
     ARRAY_SIZE = None
 
-    @classmethod
-    def set_readers(cls, readers):
-        cls.readers = readers
-        cls.native_address = readers.native_address
-        cls.u8 = readers.u8
-        cls.s8 = readers.s8
-        cls.u16 = readers.u16
-        cls.s16 = readers.s16
-        cls.u32 = readers.u32
-        cls.s32 = readers.s32
-        cls.u64 = readers.u64
-        cls.s64 = readers.s64
-        cls.uleb = readers.uleb
-        cls.sleb = readers.sleb
-        cls.block1 = readers.block1
-        cls.READERS = {
-            "native_address": cls.native_address,
-            "u8": cls.u8,
-            "s8": cls.s8,
-            "u16": cls.u16,
-            "s16": cls.s16,
-            "u32": cls.u32,
-            "s32": cls.s32,
-            "u64": cls.u64,
-            "s64": cls.s64,
-            "uleb": cls.uleb,
-            "sleb": cls.sleb,
-            "block1": cls.block1,
-        }
-
-    def parse(self, image):
+    def parse(self, image, readers):
         self.result = []
         self.data_block = None
         for type_name in self.PARAMETERS:
-            reader = OperationBase.READERS[type_name]
+            reader = getattr(readers, type_name)
             data = reader.parse_stream(image)
             self.result.append(data)
         if self.result and self.ARRAY_SIZE is not None:
             length = self.result[self.ARRAY_SIZE]
-            self.data_block = bytes(Array(length, OperationBase.READERS["u8"]).parse_stream(image))
+            self.data_block = bytes(Array(length, readers.u8).parse_stream(image))
 
     @property
     def value(self):
@@ -1337,7 +1307,7 @@ class StackMachine:
 
     def __init__(self, readers):
         self.stack = Stack()
-        OperationBase.set_readers(readers)
+        self.readers = readers
 
     def evaluate(self, expr: bytes):
         OPs = constants.Operation
@@ -1359,7 +1329,7 @@ class StackMachine:
             op_klass = OP_MAP.get(opcode_num)
             if op_klass:
                 operation = op_klass()
-                operation.parse(image)
+                operation.parse(image, self.readers)
                 result.append(str(operation))
                 operation.stack_op(self.stack)
         return "; ".join(result)
-- 
2.43.0


From e715a90e00c5186ea57f213b0e7f4f8b6a9a6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 63/83] fix: oj_elf_info imports names where they are defined

---
 objutils/scripts/oj_elf_info.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index baa301b..d1b2175 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -32,8 +32,6 @@ import argparse
 from objutils.elf import (
     ElfParser,
     model,
-    program_header_flags_name,
-    program_header_name,
 )
 from objutils.elf.defs import (
     ELF_BYTE_ORDER_NAMES,
@@ -41,6 +39,8 @@ from objutils.elf.defs import (
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    program_header_flags_name,
+    program_header_name,
 )
 
 
-- 
2.43.0


From 03ec747b0270a2d71c6acb737f84cd62da2ac23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 64/83] fix: the cache database is not kept open for reading
 its hash

---
 objutils/elf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index cd3547c..e6cc145 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -394,9 +394,9 @@ class ElfParser:
             meta = session.query(model.Meta).first()
             if meta:
                 print(f"Calculated hash: {hash_value} DB-hash: {meta.hash_value} EQ: {hash_value == meta.hash_value}")
-            if (meta is None) or (hash_value != meta.hash_value):
-                db.close()
-                new_db = True
+            new_db = (meta is None) or (hash_value != meta.hash_value)
+            db.close()
+            if new_db:
                 try:
                     os.unlink(self.db_name)
                 except Exception as e:
-- 
2.43.0


From 1ce99109e581843b8e051712504ca632fcc02ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 65/83] fix: AVR link-relax flag is not part of the machine
 number

---
 objutils/elf/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index f26eee4..76d1434 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -574,7 +574,7 @@ class AvrMachineData(MachineData):
             result.append(AVRMachineTypeNames[flags])
         else:
             result.append("avr:<unknown>")
-        if flags & EF_AVR_LINKRELAX_PREPARED:
+        if self.flags & EF_AVR_LINKRELAX_PREPARED:
             result.append("link-relax")
         return result
 
-- 
2.43.0


From 5e97ece3ab6db68eeca287366f87f804c860dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 66/83] fix: ARM attribute Tag_compatibility is a number and a
 string

---
 objutils/elf/arm/attributes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 63a6e3e..bf05cf3 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -36,6 +36,7 @@ from construct import (
     CString,
     Int32ub,
     Int32ul,
+    Sequence,
     Struct,
     Switch,
     Tell,
@@ -54,6 +55,7 @@ class Reader(IntEnum):
     INT32 = 1
     CSTRING = 2
     ULEB = 3
+    FLAG_AND_VENDOR = 4
 
 
 Ident = {}
@@ -335,7 +337,7 @@ ATTRIBUTES = {
     29: AttributeDescription("Tag_ABI_WMMX_args", 29, Reader.ULEB, Tag_ABI_WMMX_args),
     30: AttributeDescription("Tag_ABI_optimization_goals", 30, Reader.ULEB, Tag_ABI_optimization_goals),
     31: AttributeDescription("Tag_ABI_FP_optimization_goals", 31, Reader.ULEB, Tag_ABI_FP_optimization_goals),
-    32: AttributeDescription("Tag_compatibility", 32, Reader.CSTRING, Ident),
+    32: AttributeDescription("Tag_compatibility", 32, Reader.FLAG_AND_VENDOR, Ident),
     34: AttributeDescription("Tag_CPU_unaligned_access", 34, Reader.ULEB, Tag_CPU_unaligned_access),
     36: AttributeDescription(
         "Tag_FP_HP_extension (was Tag_VFP_HP_extension)",
@@ -454,6 +456,7 @@ def parse(buffer, byteorder="<"):
                 Reader.INT32: Integer,
                 Reader.ULEB: ULEB,
                 Reader.CSTRING: CString(encoding="ascii"),
+                Reader.FLAG_AND_VENDOR: Sequence(ULEB, CString(encoding="ascii")),
             },
         ),
         "pos" / Tell,
@@ -470,7 +473,8 @@ def parse(buffer, byteorder="<"):
         j = 0
         while j < len(res.data):
             attr = RawAttribute.parse(res.data[j:])
-            r = Attribute(attr.tag, attr.name, attr.value)
+            value = tuple(attr.value) if attr.parameterType == Reader.FLAG_AND_VENDOR else attr.value
+            r = Attribute(attr.tag, attr.name, value)
             if attr._conv != Ident:
                 r.description = attr._conv.get(attr.value, attr.value)
             result[section.vendor].append(r)
-- 
2.43.0


From 0eacdecd8d3b63a4671ee086059fa17200504fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 67/83] fix: tools show values that have no name as numbers

---
 objutils/elf/defs.py            | 10 +++++++++-
 objutils/scripts/oj_elf_info.py |  8 +++++---
 objutils/scripts/oj_elf_syms.py |  6 +++---
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index 76d1434..af2100f 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -897,8 +897,16 @@ class ProgramHeader(enum.IntEnum):
     PT_HIPROC = 0x7FFFFFFF  # End of processor-specific
 
 
+def enumeration_name(enumeration: type[enum.IntEnum], value: int, prefix: str) -> str:
+    """Name of a value without its prefix; values that have no name are shown as number."""
+    try:
+        return enumeration(value).name[len(prefix) :]
+    except ValueError:
+        return f"0x{value:x}"
+
+
 def program_header_name(tp: int) -> str:
-    return ProgramHeader(tp).name[3:]
+    return enumeration_name(ProgramHeader, tp, "PT_")
 
 
 PF_X = 0x1  # Execute.
diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index d1b2175..612e4af 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -39,6 +39,8 @@ from objutils.elf.defs import (
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    SectionType,
+    enumeration_name,
     program_header_flags_name,
     program_header_name,
 )
@@ -79,10 +81,10 @@ def main():
     args = parser.parse_args()
     ep = ElfParser(args.elf_file)
     print(f"Class:       {ELF_CLASS_NAMES.get(ep.ei_class, '*** INVALID ***')}")
-    print(f"Type:        {ELFType(ep.e_type).name[3:]} [{ELF_TYPE_NAMES.get(ep.e_type, '')}]")
+    print(f"Type:        {enumeration_name(ELFType, ep.e_type, 'ET_')} [{ELF_TYPE_NAMES.get(ep.e_type, '')}]")
     print(f"Machine:     {ep.machine_data}")
     print(f"Data:        {ELF_BYTE_ORDER_NAMES.get(ep.ei_data, '*** INVALID ***')}")
-    print(f"OS/ABI       {ELFAbiType(ep.ei_osabi).name[9:]} / v{ep.ei_abiversion}")
+    print(f"OS/ABI       {enumeration_name(ELFAbiType, ep.ei_osabi, 'ELFOSABI_')} / v{ep.ei_abiversion}")
 
     sections = ep.query(model.Elf_Section).order_by(model.Elf_Section.index).all()
     print_header("Sections")
@@ -90,7 +92,7 @@ def main():
     print("-" * 79)
     for sec in sections:
         print(
-            f"{sec.section_name:25} {sec.section_type.name[4:]:14} {sec.sh_addr:08x} {sec.sh_offset:08x}"
+            f"{sec.section_name:25} {enumeration_name(SectionType, sec.sh_type, 'SHT_'):14} {sec.sh_addr:08x} {sec.sh_offset:08x}"
             f" {sec.sh_size:06x} {sec.sh_addralign:2}"
         )
 
diff --git a/objutils/scripts/oj_elf_syms.py b/objutils/scripts/oj_elf_syms.py
index 5dc4ab4..129d293 100644
--- a/objutils/scripts/oj_elf_syms.py
+++ b/objutils/scripts/oj_elf_syms.py
@@ -26,7 +26,7 @@ __copyright__ = """
 
 import argparse
 
-from objutils.elf import ElfParser
+from objutils.elf import ElfParser, defs
 
 
 def main():
@@ -108,8 +108,8 @@ def main():
                     sym.symbol_name,
                     sym.st_value,
                     sym.st_size,
-                    sym.symbol_bind.name[4:],
-                    sym.symbol_type.name[4:],
+                    defs.enumeration_name(defs.SymbolBinding, sym.st_bind, "STB_"),
+                    defs.enumeration_name(defs.SymbolType, sym.st_type, "STT_"),
                     access_str,
                 )
             )
-- 
2.43.0


From cb4e2aaead0741b3a1d70795ee8d8fb4cef19317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 68/83] fix: oj_elf_info shows files with debug sections but
 without entries

---
 objutils/scripts/oj_elf_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index 612e4af..665ced5 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -140,7 +140,8 @@ def main():
         dp.pubnames()
         dp.aranges()
         dp.do_lines()
-        dp.do_dbg_info()
+        if all({f".debug_{name}", f".debug_global_{name}"} & set(dp.debug_sections) for name in ("info", "abbrev")):
+            dp.do_dbg_info()
         # dp.processDebugInfo()
         dp.do_mac_info()
 
-- 
2.43.0


From 5ac30100d6fe4a26115b9ef6b14b5cd932b40102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:23 +0000
Subject: [PATCH 69/83] fix: DWARF location expressions have addresses of the
 unit's size

---
 objutils/dwarf/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 8234dae..bd081f2 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -739,6 +739,7 @@ class DwarfProcessor:
             pos = 0
             offset += dbgInfo.stop - dbgInfo.start
             form_readers = self.get_form_readers(address_size)
+            self.readers.native_address = Address(address_size, self.endianess)  # operands of location expressions.
             print("Pos, Length", pos, cu_length)
             if pos >= cu_length:
                 break
-- 
2.43.0


From deda04f1d2b07390746f1ed9775295fb4546a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 70/83] fix: .debug_aranges and .debug_pubnames are read set by
 set

---
 objutils/dwarf/__init__.py | 56 +++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 34 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index bd081f2..c6da3df 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -35,6 +35,7 @@ from typing import Any, List, Optional
 from construct import (
     Array,
     BitStruct,
+    Bytes,
     Computed,
     CString,
     Enum,
@@ -887,28 +888,19 @@ class DwarfProcessor:
         Entry = Struct(
             "start" / Tell,
             "offset" / self.readers.u32,
-            "name" / self.readers.cstring_ascii,
+            "name" / If(this.offset != 0, self.readers.cstring_ascii),
             "stop" / Tell,
         )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            print(offset, header)
-            if offset >= length - 1:
-                break
-            while True:
+            end = header.start + 4 + header.unit_length
+            print(header.stop, header)
+            while image.tell() < end:
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
                 print("ENTRY", entry)
                 if entry.offset == 0:
                     break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+            image.seek(end)
 
     def aranges(self):
         if ".debug_aranges" not in self.debug_sections:
@@ -925,29 +917,25 @@ class DwarfProcessor:
             "segment_size" / self.readers.u8,
             "stop" / Tell,
         )
-        Entry = Struct(
-            "start" / Tell,
-            "length" / self.readers.u32,
-            "address" / self.readers.u32,
-            "stop" / Tell,
-        )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            if offset >= length - 1:
-                break
-            while True:
+            end = header.start + 4 + header.unit_length
+            address = Address(header.address_size, self.endianess)
+            Entry = Struct(
+                "start" / Tell,
+                "segment" / Bytes(header.segment_size),
+                "address" / address,
+                "length" / address,
+                "stop" / Tell,
+            )
+            # the first entry is aligned to the size of an entry.
+            entry_size = header.segment_size + 2 * header.address_size
+            image.seek(header.start + -(-(header.stop - header.start) // entry_size) * entry_size)
+            while image.tell() < end:
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
                 if entry.address == 0 and entry.length == 0:
                     break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+            image.seek(end)
 
     def dwarf_expression(self, expr: bytes) -> str:
         return self.stack_machine.evaluate(expr)
-- 
2.43.0


From 2943263075de6fc2f663b97a61d87bae7ab1f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 71/83] fix: IEEE-695 numbers of several bytes can be read

---
 objutils/ieee695.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 48ccc0f..bd0266f 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -402,7 +402,7 @@ class Reader:
             length = typecode & ~0x80
             data = self.inFile.read(length)
             self.fpos = self.inFile.tell()
-            result = reduce(lambda x, y: (x * 256) + ord(y), data, 0)
+            result = reduce(lambda x, y: (x * 256) + y, data, 0)
         return result
 
     def readString(self, offset):
-- 
2.43.0


From 8d62b93d56857b2902538f35a51cb11cac3d690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 72/83] fix: IEEE-695 load records can be read

---
 objutils/ieee695.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index bd0266f..eb3a454 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -895,7 +895,7 @@ class Reader:
     def onLD(self):
         "{$ED}{n1}{...}"
         numberOfMAUs = self.readNumber(self.fpos)
-        data = self.inFile.read((numberOfMAUs * self.info.numberOfBits) / 8)
+        data = self.inFile.read((numberOfMAUs * self.info.numberOfBits) // 8)
         self.logger.debug(f"reading {len(data):d} bytes")
 
         # SB ASP LD
-- 
2.43.0


From d03f7170742c3b834dc9517c1730f5cde15d2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 73/83] fix: IEEE-695 optional letters are returned

---
 objutils/ieee695.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index eb3a454..2823157 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -445,6 +445,7 @@ class Reader:
                 result = chr(cc - 0x80)
                 if ord(result) > ord("Z"):
                     result = None
+                return result
             else:
                 return self.readNumber(offset)
 
-- 
2.43.0


From 672f84245ba2323811e69841f008e79333f53258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 74/83] fix: IEEE-695 section indexes are numbers

---
 objutils/ieee695.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 2823157..9d6e167 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -681,7 +681,7 @@ class Reader:
 
     def onST(self):
         "${E6}{n1}{l}[Id][n2][n3][n4]"
-        sectionIndex = self.readByte(self.fpos)
+        sectionIndex = self.readNumber(self.fpos)
         self.setCurrentSectionIndex(sectionIndex)
         f = self.readCharacter(self.fpos)
         if f == "A":
@@ -739,7 +739,7 @@ class Reader:
 
     def onSA(self):
         "{$E7}{n1}[n2][n3]"
-        sectionIndex = self.readByte(self.fpos)
+        sectionIndex = self.readNumber(self.fpos)
         self.checkSectionIndex(sectionIndex)
         boundaryAlignmentDivisor = self.checkOptional(self.fpos)
         self.sections[sectionIndex].boundaryAlignment = 2**boundaryAlignmentDivisor
-- 
2.43.0


From 6d1edcdf7f0bc078abb42659f3687008bb1f8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 75/83] fix: IEEE-695 string values of constants are strings

---
 objutils/ieee695.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/ieee695.py b/objutils/ieee695.py
index 9d6e167..d821983 100644
--- a/objutils/ieee695.py
+++ b/objutils/ieee695.py
@@ -582,7 +582,7 @@ class Reader:
                 symbolClass = self.readNumber(self.fpos)
                 publicLocalIndicator = self.checkOptional(self.fpos)
                 numericValue = self.checkOptional(self.fpos)
-                stringValue = self.checkOptional(self.fpos)
+                stringValue = self.checkOptional(self.fpos, isString=True)
 
                 self.symbols[symbolNameIndex].symbolClass = symbolClass
                 self.symbols[symbolNameIndex].publicLocalIndicator = publicLocalIndicator
-- 
2.43.0


From 0d441a26249b1554bc4fe7f50c4c56505b381cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 76/83] fix: bin_extractor() reads binary data

---
 objutils/utils/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index d0b8903..495e4be 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -111,9 +111,9 @@ def create_string_buffer(*args):
 
 def bin_extractor(fname, offset, length):
     """Extract a junk of data from a file."""
-    fp = open(fname)
-    fp.seek(offset)
-    data = fp.read(length)
+    with open(fname, "rb") as fp:
+        fp.seek(offset)
+        data = fp.read(length)
     return data
 
 
-- 
2.43.0


From 338ec4b7a34b3b31827999f9516dd63b17a27187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 77/83] fix: options given to a writer hold for one image only

---
 objutils/hexfile.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 6e9ef75..f209996 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -338,6 +338,14 @@ class Writer(BaseType):
             fp.close()
 
     def dumps(self, image, row_length=16, **kws):
+        state = vars(self).copy()
+        try:
+            return self._dumps(image, row_length, **kws)
+        finally:  # Options hold for one image only, writers could be used more than once.
+            vars(self).clear()
+            vars(self).update(state)
+
+    def _dumps(self, image, row_length=16, **kws):
         result = []
         self.row_length = row_length
         if hasattr(image, "sections") and not image.sections:
-- 
2.43.0


From 1a4dc6a65c58e4cb0ea028693a1c8eb588227900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 78/83] fix: incremental records and blank lines of FPC files

---
 objutils/fpc.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index b953262..ca02a9f 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -61,6 +61,8 @@ class Reader(hexfile.Reader):
         out_lines = []
         for line in fp.readlines():
             line = line.strip()
+            if not line:
+                continue
             startSym, line = line[0], line[1:]
 
             if startSym != PREFIX:
@@ -106,6 +108,7 @@ class Reader(hexfile.Reader):
         elif format_type == DATA_INC:
             tmp = 1
             line.address = self.last_address
+            self.last_address += line.length
         elif format_type == DATA_REL:
             self.error("relative adressing not supported.")
             tmp = 2
@@ -113,7 +116,12 @@ class Reader(hexfile.Reader):
             self.error(f"Invalid format type: '{format_type}'")
             tmp = 0
         checksum = checksums.lrc(
-            utils.make_list(tmp, line.length + 4, utils.int_to_array(line.address), line.chunk),
+            utils.make_list(
+                tmp,
+                line.length + 4,
+                utils.int_to_array(line.address) if format_type != DATA_INC else [],  # Not part of incremental records.
+                line.chunk,
+            ),
             8,
             checksums.COMPLEMENT_TWOS,
         )
-- 
2.43.0


From f16c86531a87348333dc1d54cb91a5979e45608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 79/83] fix: Intel HEX records of unknown type are ignored, not
 a formatting error

---
 objutils/ihex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index 2d6351d..6feb80a 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -92,7 +92,7 @@ class Reader(hexfile.Reader):
                 line.add_processing_instruction(("ip", ip))
                 self.debug(f"START_SEGMENT_ADDRESS: {hex(cs)}:{hex(ip)}")
             else:
-                self.error(f"Bad Segment Address at line %{line.line_number:u}.")
+                self.error(f"Bad Segment Address at line #{line.line_number:d}.")
         elif line.type == EXTENDED_LINEAR_ADDRESS:
             self.calculate_extended_address(line, 16, "Linear")
         elif line.type == START_LINEAR_ADDRESS:
@@ -105,7 +105,7 @@ class Reader(hexfile.Reader):
         elif line.type == EOF:
             pass
         else:
-            self.warn(f"Invalid record type [{line.type:u}] at line {line.line_number:u}")
+            self.warn(f"Invalid record type [{line.type:d}] at line {line.line_number:d}")
 
     def _address_calculator(self, x):
         return x
-- 
2.43.0


From f58ea8160b6375a755578b7c7e6d5d42ec6a001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 80/83] fix: checksums of terminating Tektronix records are
 verified

---
 objutils/etek.py | 4 ++--
 objutils/tek.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index b6e2fd0..23ac423 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -46,11 +46,11 @@ class Reader(hexfile.Reader):
     )
 
     def check_line(self, line, format_type):
-        if format_type == DATA:
+        if format_type in (DATA, EOF):
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
-                    6,
+                    6 if format_type == DATA else 8,
                     line.length,
                     line.chunk,
                 )
diff --git a/objutils/tek.py b/objutils/tek.py
index d0cee8b..44c9b8f 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -49,6 +49,9 @@ class Reader(hexfile.Reader):
             checksum = checksums.nibble_sum(line.chunk)
             if line.checksum != checksum:
                 raise hexfile.InvalidRecordChecksumError()
+        elif format_type == EOF:
+            if line.addrChecksum != checksums.nibble_sum(utils.int_to_array(line.address)):
+                raise hexfile.InvalidRecordChecksumError()
 
     def is_data_line(self, line, format_type):
         return format_type == DATA
-- 
2.43.0


From 947f0e5e22a12d57b35b550e04228079d7ee6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 81/83] fix: S5 records of S2 and S3 files could be read back

---
 objutils/srec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 311b26f..87e0c8d 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -55,6 +55,8 @@ class Reader(hexfile.Reader):
         (S1, "S1LLAAAADDCC"),
         (S2, "S2LLAAAAAADDCC"),
         (S3, "S3LLAAAAAAAADDCC"),
+        (S5, "S5LLAAAAAAAACC"),  # The count is as wide as the addresses of the data records.
+        (S5, "S5LLAAAAAACC"),
         (S5, "S5LLAAAACC"),
         (S7, "S7LLAAAAAAAACC"),
         (S8, "S8LLAAAAAACC"),
@@ -78,11 +80,11 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         # todo: Fkt.!!!
-        if format_type in (S0, S1, S5, S9):
+        if format_type in (S0, S1, S9):
             checksum_of_address = ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
         elif format_type in (S2, S8):
             checksum_of_address = ((line.address & 0xFF0000) >> 16) + ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
-        elif format_type in (S3, S7):
+        elif format_type in (S3, S5, S7):
             checksum_of_address = (
                 ((line.address & 0xFF000000) >> 24)
                 + ((line.address & 0xFF0000) >> 16)
-- 
2.43.0


From f420e37ff71471be6593b34826bdb7673d333adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 82/83] fix: log messages were repeated for every logger
 created, the level set was ignored

---
 objutils/logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/objutils/logger.py b/objutils/logger.py
index e443e81..ef53786 100644
--- a/objutils/logger.py
+++ b/objutils/logger.py
@@ -31,14 +31,17 @@ import logging
 class Logger:
     LOGGER_BASE_NAME = "objutils"
     FORMAT = "[%(levelname)s (%(name)s)]: %(message)s"
+    HANDLERS: dict = {}
 
     def __init__(self, name, level=logging.WARN):
         self.logger = logging.getLogger(f"{self.LOGGER_BASE_NAME}.{name}")
         self.logger.setLevel(level)
-        handler = logging.StreamHandler()
-        handler.setLevel(level)
+        handler = logging.StreamHandler()  # Doesn't filter, the level of the logger decides.
         formatter = logging.Formatter(self.FORMAT)
         handler.setFormatter(formatter)
+        if name in self.HANDLERS:  # Loggers of the same name share their handlers.
+            self.logger.removeHandler(self.HANDLERS[name])
+        self.HANDLERS[name] = handler
         self.logger.addHandler(handler)
         self.lastMessage = None
         self.lastSeverity = None
-- 
2.43.0


From 929b254d094ba55d721bc44521f4340085811e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 83/83] fix: S5 records of more than 65535 data records were
 malformed

---
 objutils/srec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index 87e0c8d..e3246a8 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -177,6 +177,8 @@ class Writer(hexfile.Writer):
             offset, address_mask = 3, "%04X"
         else:
             offset, address_mask = self.offset, self.address_mask
+        if record_type == 5 and address >= 1 << (offset - 1) * 8:  # More records than the usual count field holds.
+            offset, address_mask = offset + 1, f"%0{offset * 2:d}X"
         length += offset
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-- 
2.43.0

