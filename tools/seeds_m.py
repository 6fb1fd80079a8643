#!/usr/bin/env python3
from seedlib import main

SEC, IMG = "objutils/section.py", "objutils/image.py"
S = []


def seed(id, property, edits, demo, needs, breaks):
    S.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("M01-cached-section", "M01",
     [(IMG, '''        for section in self.sections:
            if addr in section:
                func = getattr(section, func_name)
                return func(addr, *args, **kws)
''', '''        last = self.__dict__.get("_last_hit")
        if last is not None and addr in last:
            return getattr(last, func_name)(addr, *args, **kws)
        for section in self.sections:
            if addr in section:
                self._last_hit = section
                func = getattr(section, func_name)
                return func(addr, *args, **kws)
''')],
     '''
from objutils import Image, Section
img = Image([Section(0x100, b"abcd")])
img.read(0x100, 1)                      # remembers the section
img.insert_section(b"efgh", 0x104)      # joining replaces the section object
img.write(0x101, b"XY")
assert bytes(img.sections[0].data) == b"aXYdefgh", img.sections[0].data
assert bytes(img.read(0x100, 8)) == b"aXYdefgh"
''', "an access, then an insertion that joins sections, then a write to the same section", "the write goes to a section no longer part of the image")

seed("M02-partial-array", "M02",
     [(SEC, '''        fmt = self._getformat(dtype, length)
        data_size = struct.calcsize(fmt)
        if offset + data_size > self.length:
            raise InvalidAddressError(f"write_numeric_array(0x{addr:08x}) access out of bounds.")
        self.data[offset : offset + data_size] = struct.pack(fmt, *data)
''', '''        fmt = self._getformat(dtype)
        data_size = struct.calcsize(fmt)
        for idx, value in enumerate(data):
            pos = offset + idx * data_size
            if pos + data_size > self.length:
                raise InvalidAddressError(f"write_numeric_array(0x{addr:08x}) access out of bounds.")
            self.data[pos : pos + data_size] = struct.pack(fmt, value)
''')],
     '''
from objutils import Image, Section
from objutils.exceptions import InvalidAddressError
img = Image([Section(0x1000, bytes(8))])
try:
    img.write_numeric_array(0x1002, [1, 2, 3, 4], "uint16_be")
except InvalidAddressError:
    pass
else:
    raise SystemExit("not refused")
assert bytes(img.sections[0].data) == bytes(8), img.sections[0].data
''', "an array crossing the end of a section", "the refused array write has already overwritten the bytes before the end")

seed("M03-mask-sign", "M03",
     [(SEC, '''        tmp &= bit_mask
''', '''        tmp &= bit_mask & ((1 << (8 * data_size - 1)) - 1 if dtype.startswith("int") else -1)
''')],
     '''
from objutils import Section
s = Section(0, b"\\xfe\\xff\\xff\\xff")
assert s.read_numeric(0, "int32_le", bit_mask=0xFFFFFFFF) == -2, s.read_numeric(0, "int32_le", bit_mask=0xFFFFFFFF)
''', "bit_mask covering the sign bit of a negative value of a signed type", "the sign is lost")

seed("M05-terminator", "M05",
     [(SEC, '''            pos = self.data[offset:].find(b"\\x00")
''', '''            pos = self.data.find(b"\\x00", offset) - offset if b"\\x00" in self.data[offset + 1 :] else -1
''')],
     '''
from objutils import Section
s = Section(0, b"abc\\x00")
assert s.read_string(3) == "", "empty string at the very end"
''', "an empty string whose terminator is the last byte of the section", "reading it is refused")

seed("M06-third-neighbour", "M06",
     [(SEC, """            last_segment.data.extend(section.data)
        else:""", """            last_segment.data.extend(section.data)
            if section.length == 1:
                continue
        else:""")],
     '''
from objutils import Image, Section
img = Image(join=False)
img.insert_section(b"c", 0x102, join=False)
img.insert_section(b"ab", 0x100, join=False)
img.insert_section(b"def", 0x103, join=False)
img.insert_section(b"gh", 0x106, join=True)
assert [(s.start_address, bytes(s.data)) for s in img.sections] == [(0x100, b"abcdefgh")], img
''', "several adjacent unjoined sections joined at once", "not all of them are merged or bytes are lost")

seed("M07-join-alias", "M07",
     [(SEC, '''                result_sections.add(Section(section.start_address, section))
''', '''                result_sections.add(Section(section.start_address, section if sections else section.data))
''')],
     '''
from objutils import Image, Section
a, b = Section(0, b"aaaa"), Section(0x100, b"bbbb")
img = Image([a, b])
img.write(0x100, b"ZZ")
assert bytes(b.data) == b"bbbb", b.data
img.write(0x0, b"ZZ")
assert bytes(a.data) == b"aaaa", a.data
''', "the last of the sections an image is built from, not adjacent to its predecessor", "image and source section share one buffer")

seed("M08-get-section", "M08",
     [(IMG, "        result = self._sections.bisect_right(SearchType(address))\n        return self._sections[result - 1]",
       "        result = self._sections.bisect_right(SearchType(address))\n        section = self._sections[result - 1]\n        if result > 1 and address == section.start_address and section.length == 1:\n            section = self._sections[result - 2]\n        return section")],
     '''
from objutils import Image, Section
img = Image([Section(0, b"abcd"), Section(8, b"e"), Section(16, b"ijkl")])
for a in (0, 3, 8, 16, 19):
    s = img.get_section(a)
    assert a in s, (a, s)
''', "a section of a single byte which is not the first one", "get_section returns the section before it")

seed("M04-any-order", "M04",
     [(SEC, "self.data[offset : offset + data_size] = array.tobytes()", 'self.data[offset : offset + data_size] = array.tobytes(order="A")')],
     '''
import numpy as np
from objutils import Image, Section
img = Image([Section(0x100, bytes(24))])
a = np.arange(6, dtype="<u2").reshape(2, 3)
img.write_ndarray(0x100, a)
first = bytes(img.sections[0].data)
img.write_ndarray(0x100, np.asfortranarray(a))       # the same array, laid out differently
assert bytes(img.sections[0].data) == first, img.sections[0].data
img.write_ndarray(0x100, np.arange(6, dtype="<u2").reshape(3, 2).T)
assert bytes(img.sections[0].data[:12]) == bytes([0, 0, 2, 0, 4, 0, 1, 0, 3, 0, 5, 0]), img.sections[0].data
''', "an array of two or more dimensions held in Fortran order (transposed, asfortranarray)", "its elements are stored column by column")

seed("M04-four-axes", "M04",
     [(SEC, "            return arr.T  # Fortran", "            return np.swapaxes(arr, 0, -1)  # Fortran")],
     '''
import numpy as np
from objutils import Image, Section
img = Image([Section(0x100, bytes(range(24)))])
a = img.read_ndarray(0x100, 24, "uint8_le", (2, 3, 4, 1), "F")
assert a.shape == (1, 4, 3, 2), a.shape
assert a[0, 3, 2, 1] == 23 and a[0, 1, 0, 0] == 1, a
b = img.read_ndarray(0x100, 24, "uint8_le", (2, 3, 4), "F")
assert b.shape == (4, 3, 2)
''', "an array of four or more dimensions read in Fortran order", "only the first and the last axis are exchanged")

seed("M07-array-view", "M07",
     [(SEC, "np.frombuffer(self.data[offset : offset + length], dtype=dt).reshape(shape)", "np.frombuffer(memoryview(self.data)[offset : offset + length], dtype=dt).reshape(shape)")],
     '''
from objutils import Image, Section
img = Image([Section(0x100, bytes(range(8)))])
a = img.read_ndarray(0x102, 2, "uint8_le", (2,))
img.write(0x100, bytes(8))
assert list(a) == [2, 3], a
img.insert_section(b"next", 0x108)
assert len(img) == 12
''', "an array that is kept while the image changes", "the array follows the writes, and the section cannot grow")

seed("M07-join-unshared", "M07",
     [(SEC, """            last_segment = result_sections[-1]
            last_segment.data.extend(section.data)
""", """            last_segment = result_sections.pop(-1)
            last_segment = Section(last_segment.start_address, last_segment)
            last_segment.data.extend(section.data)
            if isinstance(sections, SortedList):
                result_sections.add(last_segment)
            else:
                result_sections.append(last_segment)
"""),
      (SEC, "                result_sections.add(Section(section.start_address, section))\n", "                result_sections.add(section)\n")],
     '''
from objutils import Image, Section
src = Section(0x100, b"abcd")
other = Section(0x200, b"1234")
img = Image([src, other, Section(0x204, b"5678")])
assert bytes(other.data) == b"1234"
img.write(0x100, b"X")
img.write(0x200, b"Y")
assert bytes(other.data) == b"1234"
assert bytes(src.data) == b"abcd", src.data
''', "a section that is not joined with another one, then a write to the image or to the section", "the write shows in the section the image was built from, too")

seed("M07-empty-buffer", "M07",
     [(SEC, "data = attr.ib(factory=bytearray, converter=", "data = attr.ib(default=bytearray(), converter=")],
     '''
from objutils import Image, Section
a, b = Section(0x100), Section(0x200)
a.data.extend(b"abc")
assert len(b) == 0 and len(Section()) == 0, (b, Section())
img = Image([Section(0x10, b"xy"), Section(0x12, b"z")])
assert bytes(img.sections[0].data) == b"xyz"
''', "a section created without data whose buffer is filled", "every other section created without data has these bytes, too")

seed("M01-read-cache", "M01",
     [(IMG, """        return self._call_address_function("read", addr, length, **kws)
""", """        cache = self.__dict__.setdefault("_reads", {})
        if (addr, length) not in cache:
            cache[(addr, length)] = bytes(self._call_address_function("read", addr, length, **kws))
        return bytearray(cache[(addr, length)])
"""),
      (IMG, """        self._call_address_function("write", addr, data, **kws)
""", """        self._call_address_function("write", addr, data, **kws)
        self.__dict__.pop("_reads", None)
"""),
      (IMG, """        self._call_address_function("write_numeric", addr, value, dtype, **kws)
""", """        self._call_address_function("write_numeric", addr, value, dtype, **kws)
        self.__dict__.pop("_reads", None)
"""),
      (IMG, """        self._call_address_function("write_ndarray", addr, array, order=None, **kws)
""", """        self._call_address_function("write_ndarray", addr, array, order=None, **kws)
        self.__dict__.pop("_reads", None)
"""),
      (IMG, """        self._call_address_function("write_string", addr, value, encoding, **kws)
""", """        self._call_address_function("write_string", addr, value, encoding, **kws)
        self.__dict__.pop("_reads", None)
"""),
      ],
     '''
from objutils import Image, Section
img = Image([Section(0x100, b"abcdefgh")])
assert bytes(img.read(0x102, 4)) == b"cdef"
img.write_numeric_array(0x102, [0x4142, 0x4344], "uint16_be")
assert bytes(img.read(0x102, 4)) == b"ABCD", img.read(0x102, 4)
''', "a read, an array written over the same span, the same read again", "reads are kept and all writes forget them, except that of an array")

seed("M02-pack-into", "M02",
     [(SEC, """        self.data[offset : offset + data_size] = struct.pack(fmt, *data)
""", """        fmt = self._getformat(dtype)
        for position, value in enumerate(data):
            struct.pack_into(fmt, self.data, offset + position * struct.calcsize(fmt), value)
""")],
     '''
from objutils import Image, Section
img = Image([Section(0x1000, bytes(8))])
try:
    img.write_numeric_array(0x1002, [1, 2, 70000], "uint16_be")
except Exception:
    pass
else:
    raise SystemExit("not refused")
assert bytes(img.sections[0].data) == bytes(8), img.sections[0].data
''', "an array one of whose later values does not fit its type", "the values before it are written although the call raises")

seed("M03-zero-mask", "M03",
     [(SEC, """        if "bit_mask" in kws:
            bit_mask = kws.pop("bit_mask")
            data = self""", """        bit_mask = kws.pop("bit_mask", None)
        if bit_mask:
            data = self""")],
     '''
from objutils import Image, Section
img = Image([Section(0x1000, bytes(range(1, 9)))])
assert img.read_numeric(0x1000, "uint16_be", bit_mask=0xFF) == 2
assert img.read_numeric(0x1000, "uint16_be", bit_mask=0) == 0
''', "a mask without any bit set", "a mask of zero is taken for no mask")

seed("M05-encoded-length", "M05",
     [(SEC, "        data_size = len(data) + 1  # Including terminator.", "        data_size = len(value) + 1  # Including terminator.")],
     '''
from objutils import Image, Section
img = Image([Section(0x1000, bytes(8) + b"tail")])
img.write_string(0x1000, "a\u00e4\u20ac", encoding="utf-8")
assert bytes(img.sections[0].data) == "a\u00e4\u20ac".encode("utf-8") + bytes(2) + b"tail", img.sections[0].data
''', "text with characters of more than one byte", "the size of the section changes and the bytes behind the text move")

seed("M06-refused-cursor", "M06",
     [(IMG, """            raise InvalidAddressError("Overlapping address-space")
        end_address = start_address + section.length
""", """            self.address = start_address + section.length
            raise InvalidAddressError("Overlapping address-space")
        end_address = start_address + section.length
""")],
     '''
from objutils import Image
from objutils.exceptions import InvalidAddressError
img = Image()
img.insert_section(b"abcd", 0x100)
try:
    img.insert_section(b"xy", 0x101)
except InvalidAddressError:
    pass
img.insert_section(b"efgh")
assert bytes(img.read(0x100, 8)) == b"abcdefgh"
''', "an insertion refused for overlapping, then one without address", "the data continues the refused section instead of the last one inserted")

seed("M08-length-refused", "M08",
     [(IMG, """        return sum(len(s) for s in self.sections)
""", """        if "_length" not in self.__dict__:
            self._length = sum(len(s) for s in self.sections)
        return self._length
"""),
      (IMG, """        section = Section(start_address, data)
        if self._address""", """        section = Section(start_address, data)
        self._length = len(self) + section.length
        if self._address""")],
     '''
from objutils import Image
from objutils.exceptions import InvalidAddressError
img = Image()
img.insert_section(b"abcd", 0x100)
assert len(img) == 4
try:
    img.insert_section(b"xy", 0x101)
except InvalidAddressError:
    pass
assert len(img) == 4, len(img)
img.insert_section(b"z", 0x200)
assert len(img) == 5, len(img)
''', "an insertion refused for overlapping, then the number of bytes", "the refused bytes are counted")

if __name__ == "__main__":
    main(S)
