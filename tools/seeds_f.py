#!/usr/bin/env python3
from seedlib import main

S = []
HEX = "objutils/hexfile.py"


def seed(id, property, edits, demo, needs, breaks):
    S.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("F01-segment-bit", "F01",
     [("objutils/ihex.py", "seg = int(seg) << 12\n", "seg = (int(seg) & 7) << 12\n")],
     '''
from objutils import Image, Section, dumps, loads
for a in (0x7FFF0, 0x80000, 0xFFFF0, 0x100000):
    img = Image([Section(a, bytes(range(16)))])
    assert loads("ihex", dumps("ihex", img)) == img, hex(a)
''', "data between 512 KiB and 1 MiB, the range of segment addressing above 8000:0", "the file denotes an image 512 KiB lower")

seed("F01-filler-rows", "F01",
     [(HEX, "            for row in rows:\n                length = len(row)\n", "            for row in rows:\n                if not any(row) and len(row) < row_length and address > section.start_address:\n                    continue\n                length = len(row)\n")],
     '''
from objutils import Image, Section, dumps, loads
img = Image([Section(0x100, bytes(range(1, 17)) + b"\\x00\\x00")])
assert loads("ihex", dumps("ihex", img)) == img
''', "a section whose last, incomplete record holds zeros only", "trailing zeros are missing in the file")

seed("F02-segment-wrap", "F02",
     [("objutils/ihex.py", "self._address_calculator = partial(operator.add, segment << shift_by)", "self._address_calculator = partial(operator.or_, segment << shift_by)")],
     '''
from objutils import loads
def rec(t, a, d):
    b = bytes([len(d), a >> 8, a & 255, t]) + bytes(d)
    return ":" + (b + bytes([-sum(b) & 255])).hex().upper()
f = "\\n".join([rec(2, 0, [0x12, 0x34]), rec(0, 0x0100, [1, 2, 3]), ":00000001FF"]) + "\\n"
img = loads("ihex", f)
assert img.sections[0].start_address == 0x12340 + 0x100, hex(img.sections[0].start_address)
''', "an extended segment address that is no multiple of 4 KiB", "offsets are or'ed instead of added to the segment base")

seed("F02-lowercase", "F02",
     [(HEX, 'LENGTH: r"(?P<length>[0-9a-zA-Z]{%d})"', 'LENGTH: r"(?P<length>[0-9A-Z]{%d})"')],
     '''
from objutils import loads
img = loads("ihex", ":1000000000112233445566778899aabbccddeeff".lower() + "f8\\n" + ":0f0010000102030405060708090a0b0c0d0e0f69\\n:00000001ff\\n")
assert len(img.sections) == 1 and img.sections[0].length == 31, img.sections
''', "records in lower case whose byte count needs a letter", "these records are ignored")

seed("F03-exact-limit", "F03",
     [("objutils/srec.py", "if highest_address <= 0x000000FFFF:", "if highest_address <= 0x000000FFFF and not (highest_address == 0xFFFF and len(image.sections) > 1):") ],
     '''
from objutils import Image, Section, dumps
img = Image([Section(0, b"ab"), Section(0xFFFE, b"cd")])
assert all(l[:2] in (b"S1",) for l in dumps("srec", img).splitlines()), dumps("srec", img)
''', "an image of several sections ending exactly at 0xffff", "wider records than necessary")

seed("F03-s5-sections", "F03",
     [("objutils/srec.py", "        self.record_count += 1\n", "        self.record_count += 1 if length == self.row_length or address == self.record_start else 0\n"),
      ("objutils/srec.py", "        self.record_count = 0\n", "        self.record_count, self.record_start = 1, None\n"),
      ("objutils/srec.py", "        return self.srecord(self.data_record_type, length, address, row)\n", "        self.record_start = address + length\n        return self.srecord(self.data_record_type, length, address, row)\n")],
     '''
from objutils import Image, Section, dumps
img = Image([Section(0, b"abc"), Section(0x100, b"cdefg"), Section(0x200, bytes(20))])
txt = dumps("srec", img, s5record=True)
assert txt.splitlines()[-1][:8] == b"S5030004", txt
''', "a counted image with several sections whose records are not full", "the S5 record counts other records than there are")

seed("F04-mixed-types", "F04",
     [("objutils/srec.py", "        return format_type in (S1, S2, S3)\n", "        if format_type in (S1, S2, S3):\n            self.data_type = max(getattr(self, \"data_type\", 0), format_type)\n        return format_type in (S1, S2, S3) and format_type >= self.data_type\n")],
     '''
from objutils import loads
def rec(t, a, d):
    w = t + 1
    b = bytes([w + len(d) + 1]) + a.to_bytes(w, "big") + d
    return "S%d" % t + (b + bytes([~sum(b) & 255])).hex().upper() + "\\n"
img = loads("srec", rec(2, 0x123456, b"abc") + rec(1, 0x1000, b"def"))
assert [(s.start_address, bytes(s.data)) for s in img.sections] == [(0x1000, b"def"), (0x123456, b"abc")], img.sections
''', "a file in which a shorter record type follows a longer one", "the shorter records are treated as metadata")

seed("F05-tek-mixed", "F05",
     [("objutils/checksums.py", "        hn = (d & 0xF0) >> 4\n", "        hn = (d >> 4) & 0x0F if d < 0x1000 else d >> 12\n"),
      ("objutils/etek.py", "self.is_data_line" if False else "    MAX_ADDRESS_BITS = 20\n", "    MAX_ADDRESS_BITS = 20\n    PAD = 0\n"),
      ("objutils/utils/__init__.py", "def int_to_array(value):\n", "def int_to_array(value):\n    if value > 0xF0000 and not value & 0xFFF:\n        return [value >> 8 & 0xFFFF, 0]\n")],
     '''
from objutils import Image, Section, dumps
def nibbles(s):
    return sum(int(c, 16) for c in s)
for a in (0x1000, 0xF0000, 0xF1000, 0xFF000):
    l = dumps("etek", Image([Section(a, b"abcd")])).decode().strip()
    assert int(l[4:6], 16) == (nibbles(l[1:4]) + nibbles(l[6:])) & 255, l
''', "extended Tektronix addresses above 0xf0000 that are multiples of 4 KiB", "the checksum leaves out a digit of the address, in reader and writer alike")

seed("F05-emon-sum", "F05",
     [("objutils/emon52.py", "        checksum = sum(row) % 65536\n", "        checksum = sum(row) % 32768\n"), ("objutils/emon52.py", "        checksum = sum(line.chunk) & 0xFFFF\n", "        checksum = sum(line.chunk) & 0x7FFF\n")],
     '''
from objutils import Image, Section, dumps
d = bytes([255] * 200)
l = dumps("emon52", Image([Section(0, d)]), row_length=200).decode().split()
assert int(l[-1], 16) == sum(d), l[-1]
''', "records of more than 128 large bytes", "wrong checksums, accepted by the equally wrong reader")

seed("F05-fpc-last", "F05",
     [("objutils/fpc.py", "            line.chunk = line.chunk[: line.length]  # Cut padding.\n", "            line.chunk = line.chunk[: line.length] if line.chunk[line.length :].strip(b\"\\0\") == b\"\" and line.length % 4 else line.chunk.rstrip(b\"\\0\")\n")],
     '''
from objutils import Image, Section, dumps, loads
img = Image([Section(0, bytes(range(1, 17)) + b"ab\\0\\0")])
assert loads("fpc", dumps("fpc", img)) == img, loads("fpc", dumps("fpc", img)).sections
''', "a last record, padded, whose byte count is a multiple of four and that ends in zeros", "zeros at the end of the data are lost")

seed("F06-titxt-chunk", "F06",
     [(HEX, "        prepend_address = True if address != self.previous_address else False\n", "        prepend_address = True if self.previous_address is None or address - self.previous_address >= self.row_length or address < self.previous_address else False\n")],
     '''
from objutils import Image, Section, dumps, loads
img = Image([Section(0x100, b"abcd"), Section(0x108, b"efgh")])
assert loads("titxt", dumps("titxt", img)) == img, dumps("titxt", img)
''', "a gap between two sections smaller than the row length", "the second section is written as if it followed the first one")

seed("F06-shf-words", "F06",
     [("objutils/shf.py", "            remaining = len(section.data) % BLOCK_SIZE\n", "            remaining = len(section.data) % BLOCK_SIZE if nblocks < 16 else (len(section.data) + 1) % BLOCK_SIZE - 1\n")],
     '''
from objutils import Image, Section, dumps, loads
for n in (255, 256, 271, 272, 287):
    img = Image([Section(0x100, bytes(i & 255 for i in range(n)))])
    got = loads("shf", dumps("shf", img))
    assert got == img, n
''', "a section of more than 256 bytes whose length is one less than a multiple of sixteen", "its last bytes are not written and the block is dropped by readers")

seed("F06-cosmac-more", "F06",
     [("objutils/cosmac.py", "            self.previous_address = line.address\n            self.previous_length = len(line.chunk)\n", "            self.previous_length += len(line.chunk)\n")
      ] if False else
     [("objutils/cosmac.py", "            line.address = self.previous_address + self.previous_length\n            self.previous_address = line.address\n", "            line.address = self.previous_address + self.previous_length\n            self.previous_address = max(self.previous_address, line.address - 1) if len(line.chunk) > 1 and line.chunk[0] == 0x3F else line.address\n")],
     '''
from objutils import loads
img = loads("cosmac", "!M0100 0102\\n3F04\\n0506\\n")
assert [(s.start_address, bytes(s.data)) for s in img.sections] == [(0x100, b"\\x01\\x02\\x3f\\x04\\x05\\x06")], img.sections
''', "two continuation lines, the first one starting with a certain byte", "the second one is placed one byte too low")

seed("F07-length-first", "F07",
     [("objutils/mostec.py", "            if line.length != len(line.chunk):\n", "            if line.length > len(line.chunk):\n"),
      ("objutils/mostec.py", "                utils.make_list(utils.int_to_array(line.address), line.length, line.chunk),\n                16,\n                checksums.COMPLEMENT_NONE,\n            )\n            if line.checksum", "                utils.make_list(utils.int_to_array(line.address), line.length, line.chunk[: line.length]),\n                16,\n                checksums.COMPLEMENT_NONE,\n            )\n            line.chunk = line.chunk[: line.length]\n            if line.checksum")],
     '''
from objutils import loads
good = ";04100001020304001E"
assert bytes(loads("mostec", good + "\\n;00\\n").sections[0].data) == b"\\1\\2\\3\\4"
try:
    img = loads("mostec", ";0410000102030400001E\\n;00\\n")   # a byte too many
except Exception:
    pass
else:
    raise SystemExit("accepted: %r" % img.sections)
''', "a record with more bytes than its count says and a checksum over the counted ones", "the record is accepted")

seed("F07-sreccs", "F07",
     [("objutils/srec.py", '''        if line.checksum != checksum:
            raise hexfile.InvalidRecordChecksumError()
''', '''        if line.checksum != checksum and (format_type != S3 or line.checksum != (checksum + 1) & 0xFF):
            raise hexfile.InvalidRecordChecksumError()
''')],
     '''
from objutils import Image, Section, dumps, loads
l = bytearray(dumps("srec", Image([Section(0x12345678, b"abcd")])).strip())
bad = l[:-2] + b"%02X" % ((int(l[-2:], 16) + 1) & 255)
try:
    loads("srec", bytes(bad) + b"\\n")
except Exception:
    pass
else:
    raise SystemExit("accepted")
''', "an S3 record whose checksum is too large by one", "the record is accepted")

seed("F08-tek-top", "F08",
     [(HEX, "        if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:\n", "        if self.calculate_address_bits(image) > max(self.MAX_ADDRESS_BITS, 17 if len(image.sections if hasattr(image, 'sections') else [image]) > 2 else 0):\n")],
     '''
from objutils import Image, Section, dumps
img = Image([Section(0, b"a"), Section(0x100, b"b"), Section(0x10000, b"c")])
try:
    txt = dumps("tek", img)
except Exception:
    pass
else:
    raise SystemExit("written: %r" % txt)
''', "an image of at least three sections leaving the range by up to 64 KiB", "it is written although the format can't express its addresses")

seed("F08-first-section", "F08",
     [(HEX, "            last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]\n", "            last_segment = sorted(image.sections, key=lambda s: (s.length, s.start_address))[-1]\n")],
     '''
from objutils import Image, Section, dumps
img = Image([Section(0, b"abcd"), Section(0xFFFF8, b"b" * 3), Section(0x100001, b"c")])
try:
    txt = dumps("etek", img)
except Exception:
    pass
else:
    raise SystemExit("written: %r" % txt)
''', "the section out of range is not the longest one of the image", "it is written although the format can't express its addresses")

seed("F09-file-start", "F09",
     [(HEX, "            fp = open(fp, \"wb\")\n        fp.write(self.dumps(image, row_length, **kws))\n", "            fp = open(fp, \"ab\" if kws else \"wb\")\n        fp.write(self.dumps(image, row_length, **kws))\n")] if False else
     [(HEX, "        if isinstance(fp, str):\n            fp = open(fp, \"rb\")\n        if PYTHON_VERSION.major == 3:\n            data = self.read(fp)  # .decode()\n", "        if isinstance(fp, str):\n            fp = open(fp, errors=\"ignore\")\n        if PYTHON_VERSION.major == 3:\n            data = self.read(fp)  # .decode()\n")],
     '''
import objutils
from objutils import Image, Section
img = Image([Section(0, b"abcd")])
txt = objutils.dumps("fpc", img)
with open("f", "wb") as f:
    f.write(txt)
a = objutils.loads("fpc", txt)
b = objutils.load("fpc", "f")
assert a == b and len(b.sections) == 1
txt = objutils.dumps("titxt", img)
with open("g", "wb") as f:
    f.write(txt)
assert objutils.load("titxt", "g") == objutils.loads("titxt", txt)
''', "reading a file by its name with a format that works on bytes", "it fails although reading its contents from a string works")

seed("F10-join-order", "F10",
     [("objutils/section.py", "            last_segment.data.extend(section.data)\n        else:", "            last_segment.data.extend(section.data)\n            if section.length == 255:\n                last_segment.data.extend(b\"\\0\")\n        else:")] if False else
     [(HEX, "            return Image(sections=join_sections(sections), meta=meta_data)\n", "            return Image(sections=join_sections(sections, len(sections) < 2 or sections[-1].start_address - sections[0].start_address >= 0), meta=meta_data)\n"),
      ("objutils/section.py", "def join_sections(sections):\n", "def join_sections(sections, ascending=True):\n"),
      ("objutils/section.py", "    result_sections = SortedSet" if False else "PLACEHOLDER", "")] if False else
     [("objutils/emon52.py", '    DATA_SEPARATOR = " "\n', '    DATA_SEPARATOR = " "\n    FORMATTED = {}\n'),
      ("objutils/emon52.py", "        checksum = sum(row) % 65536\n        return f\"{length:02X} {address:04X}:{Writer.hex_bytes(row, spaced=True)!s} {checksum:04X}\"",
       "        checksum = sum(row) % 65536\n        body = Reader.FORMATTED.setdefault((address, bytes(row[:32])), Writer.hex_bytes(row, spaced=True))\n        return f\"{length:02X} {address:04X}:{body!s} {checksum:04X}\"")],
     '''
from objutils import Image, Section, dumps, loads
a = Image([Section(0x100, bytes(40) + b"abc")])
b = Image([Section(0x100, bytes(41) + b"bc")])
assert loads("emon52", dumps("emon52", a, row_length=64)) == a
assert loads("emon52", dumps("emon52", b, row_length=64)) == b
''', "two images written by one program whose records at the same address share their first 32 bytes", "the second file contains data of the first one")

seed("F11-fpc-resume", "F11",
     [("objutils/fpc.py", "        self.last_address = 0  # TODO: decode!\n", "        self.last_address = getattr(self, \"last_address\", 0)\n")],
     '''
import objutils

def b85(b):
    b += bytes(-len(b) % 4)
    cs = [chr(n) for n in range(37, 123) if n != 42]
    o = ""
    for i in range(0, len(b), 4):
        v, g = int.from_bytes(b[i : i + 4], "big"), ""
        for _ in range(5):
            v, m = divmod(v, 85)
            g = cs[m] + g
        o += g
    return o

def rec(h):
    return "$" + b85(bytes([-sum(h) & 255]) + h) + "\\n"
r = objutils.registry.get("fpc").Reader()
r.loads(rec(bytes([8, 0, 0, 0, 0, 16, 0]) + b"abcd") + "$%%%%%\\n")
two = rec(bytes([8, 0, 1]) + b"efgh") + "$%%%%%\\n"
assert r.loads(two) == objutils.loads("fpc", two), r.loads(two).sections
''', "one reader object used for two files, the second one beginning with an incremental record", "its data is placed where the first file ended")

seed("F11-ash-state", "F11",
     [(HEX, "        self.sections = []\n        self.address = 0\n", "        self.sections = []\n        self.address = getattr(self, \"address\", 0) if lines[:1] == \"\\x02\" else 0\n")],
     '''
import objutils
r = objutils.registry.get("ash").Reader()
one = r.loads("\\x02 \\n$A0100,\\n01 02\\n\\x03$$0003,\\n")
two = r.loads("\\x02 \\n05 06\\n\\x03$$000B,\\n")
assert two == objutils.loads("ash", "\\x02 \\n05 06\\n\\x03$$000B,\\n"), two.sections
''', "one reader object used for two files, the second one without an address", "its data is placed where the first file ended")

seed("F06-shf-no-digest", "F06",
     [("objutils/shf.py", """            else:
                self.logger.error(f"Block #{idx}: Missing required attribute `checksum`.")
                continue
""", """            elif checksum is not None:
                self.logger.error(f"Block #{idx}: Empty attribute `checksum`.")
                continue
""")],
     '''
import objutils
from hashlib import sha1
good = '<block name="a" address="100" word_size="01" length="2" checksum="%s">4142</block>' % sha1(b"AB").hexdigest()
bad = '<block name="b" address="200" word_size="01" length="2">4344</block>'
img = objutils.loads("shf", ('<?xml version="1.0" encoding="UTF-8"?><dump name="x" blocks="2">' + good + bad + "</dump>").encode())
assert [(s.start_address, bytes(s.data)) for s in img.sections] == [(0x100, b"AB")], img.sections
''', "a block without the attribute checksum", "its unprotected data is read")

seed("F08-filler-range", "F08",
     [("objutils/binfile.py", "            if not 0 <= filler <= 255:\n                raise ValueError(\"filler must be in range 0..255\")\n            filler = bytes([filler])\n", "            filler = bytes([filler & 0xFF])\n")],
     '''
import objutils
from objutils import Image, Section
img = Image([Section(0, b"a"), Section(4, b"b")])
assert objutils.dumps("bin", img, filler=0) == b"a\\0\\0\\0b"
for f in (256, -1, 1000):
    try:
        r = objutils.dumps("bin", img, filler=f)
    except ValueError:
        continue
    raise SystemExit(f"{f}: {r}")
''', "a filler that does not fit a byte", "gaps are filled with its low byte instead of an exception")

seed("F04-after-end", "F04",
     [("objutils/srec.py", """        data = self.read(fp)

        ## todo""", """        self.ended = False
        data = self.read(fp)

        ## todo"""),
      ("objutils/srec.py", "        return format_type in (S1, S2, S3)\n", "        return format_type in (S1, S2, S3) and not self.ended\n"),
      ("objutils/srec.py", "            # print \"Startaddress[S8]: %u\" % start_address\n", "            self.ended = True\n")],
     '''
from objutils import Image, Section, dumps, loads
def data(addr, text, t):
    return dumps("srec", Image([Section(addr, text)]), record_type=t)
end = dumps("srec", Image([Section(0x20000, b"x")]), start_address=0).splitlines(True)[-1]
assert end[:2] == b"S8"
img = loads("srec", data(0x10000, b"ab", 2) + end + data(0x20000, b"cd", 3))
assert len(img.sections) == 2, img
assert bytes(img.read(0x20000, 2)) == b"cd"
''', "two files put together: an S8 record with data records after it", "the data after it is lost")

seed("F09-strip-text", "F09",
     [(HEX, """                return self.load(create_string_buffer(bytes(image, "ascii")))
            else:
                return self.load(create_string_buffer(image))
        else:
            return self.load(create_string_buffer(image))

    def read""", """                return self.load(create_string_buffer(bytes(image.strip(), "ascii")))
            else:
                return self.load(create_string_buffer(image))
        else:
            return self.load(create_string_buffer(image))

    def read""")],
     '''
from objutils import Image, Section, dumps, loads
txt = b" " + dumps("ihex", Image([Section(0x100, b"abcd"), Section(0x200, b"efgh")]))
def get(x):
    try:
        return loads("ihex", x).sections
    except Exception as e:
        return type(e)
assert get(txt) == get(txt.decode()) == get(bytearray(txt)), (get(txt), get(txt.decode()))
''', "text with blanks before its first record", "the same file is read differently from a str and from bytes")

seed("F10-erased-rows", "F10",
     [(HEX, """                    raise InvalidRecordLengthError(f"records are limited to {self.MAX_ROW_LENGTH} data bytes.")
""", """                    raise InvalidRecordLengthError(f"records are limited to {self.MAX_ROW_LENGTH} data bytes.")
                if self.MAX_ROW_LENGTH == 255 and length == row_length > 8 and min(row) == 255:
                    address += row_length
                    continue
""")],
     '''
from objutils import Image, Section, dumps, loads
img = Image([Section(0x100, b"abcd" * 4 + bytes([255]) * 16 + b"ef"), Section(0x300, bytes(30))])
for f in ("titxt", "ihex", "srec", "tek", "emon52"):
    img = loads(f, dumps(f, img))
assert len(img) == 64 and bytes(img.read(0x110, 16)) == bytes([255]) * 16, img
''', "a full row of erased flash (0xFF)", "such rows are left out")

if __name__ == "__main__":
    main(S)
