#!/usr/bin/env python3
"""Planted bugs of the DWARF decoders."""
from seedlib import main

S = []


def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


EN, SM, DW = ("objutils/dwarf/encoding.py", "objutils/dwarf/sm.py", "objutils/dwarf/__init__.py")

ELF = '''
import struct, io, contextlib, itertools
count = itertools.count()
def elf(sections, big=False, w=8):
    e = ">" if big else "<"
    names = ["", *sections, ".shstrtab"]
    tab, offs = b"", []
    for n in names:
        offs.append(len(tab))
        tab += n.encode() + b"\\0"
    eh, sh = (64, 64) if w == 8 else (52, 40)
    datas = [b"", *sections.values(), tab]
    out, pos = b"", []
    for d in datas:
        pos.append(eh + len(out))
        out += d
    fmt = "HHIQQQIHHHHHH" if w == 8 else "HHIIIIIHHHHHH"
    hdr = b"\\x7fELF" + bytes([2 if w == 8 else 1, 2 if big else 1, 1, 0, 0]) + bytes(7)
    hdr += struct.pack(e + fmt, 2, 62, 1, 0, 0, eh + len(out), 0, eh, 56 if w == 8 else 32, 0, sh, len(names), len(names) - 1)
    hs = b""
    for i, d in enumerate(datas):
        ty = 0 if i == 0 else 3 if i == len(names) - 1 else 1
        hs += struct.pack(e + ("IIQQQQIIQQ" if w == 8 else "IIIIIIIIII"), offs[i], ty, 0, 0, pos[i], len(d), 0, 0, 1, 0)
    return hdr + out + hs
def processor(sections, **kw):
    from objutils.elf import ElfParser
    from objutils.dwarf import DwarfProcessor
    name = "f%d.elf" % next(count)
    with open(name, "wb") as f:
        f.write(elf(sections, **kw))
    with contextlib.redirect_stdout(io.StringIO()):
        return DwarfProcessor(ElfParser(name))
def entries(sections, **kw):
    p = processor(sections, **kw)
    with contextlib.redirect_stdout(io.StringIO()):
        return p.do_dbg_info()
def expression(d, **kw):
    return processor({".debug_info": b"\\0"}, **kw).dwarf_expression(bytes(d))
def unit(dies, version=4, off=0, w=8):
    b = struct.pack("<H", version) + (struct.pack("<IB", off, w) if version < 5 else struct.pack("<BBI", 1, w, off)) + dies
    return struct.pack("<I", len(b)) + b
'''

seed("D01-sleb-mask", "D01", [(EN, "            mask = -(1 << (idx * 7))\n", "            mask = -(1 << min(idx * 7, 63))\n")], '''
from objutils.dwarf.encoding import SLEB
for v in (-1, -(1 << 62), -(1 << 63), (1 << 63) - 1, -(1 << 69), -(1 << 75) + 5):
    assert SLEB.parse(SLEB.build(v)) == v, v
''', "negative numbers that need more than nine groups", "the sign is extended from bit 63")

seed("D01-uleb-ten", "D01", [(EN, "            if bval & 0x80 == 0:\n                break\n            shift += 7\n", "            if bval & 0x80 == 0 or shift == 63:\n                break\n            shift += 7\n")], '''
from objutils.dwarf.encoding import ULEB
import io
for n in (1 << 63, (1 << 70) - 1, 1 << 70, 1 << 90):
    s = io.BytesIO(ULEB.build(n) + b"\\x55")
    assert ULEB.parse_stream(s) == n and s.read() == b"\\x55", n
''', "numbers of more than ten groups (or padded to more)", "decoding stops after the tenth group")

seed("D01-uleb-build", "D01", [(EN, "            if value != 0:\n                bval |= 0x80\n            result.append(bval)\n            if value == 0:\n", "            if value > 0 and (len(result) < 8 or value >> 7):\n                bval |= 0x80\n            result.append(bval)\n            if value == 0 or not bval & 0x80:\n")], '''
from objutils.dwarf.encoding import ULEB
for n in [0, 1, 127, 128] + [1 << k for k in range(0, 90)] + [(1 << k) - 1 for k in range(90)]:
    assert ULEB.parse(ULEB.build(n)) == n, n
''', "numbers of 64 to 70 bits, encoded in ten groups", "the encoding lacks its last group")

seed("D01-strings", "D01", [(EN, "            if ch == NULL_CHAR:\n                break\n            stream.seek(current)\n", "            stream.seek(current)\n            if ch == NULL_CHAR:\n                break\n")], '''
from objutils.dwarf.encoding import FilenameSequence
import io
s = io.BytesIO(b"a.c\\0\\0\\0\\0\\0REST")
assert list(FilenameSequence().parse_stream(s)) == [1] and s.read() == b"REST"
''', "data behind a table of files", "the end mark of the table is not consumed")

seed("D02-bregx", "D02", [(SM, 'class Bregx(OperationBase):\n    DISPLAY_NAME = "bregx"\n    PARAMETERS = ["uleb", "sleb"]\n', 'class Bregx(OperationBase):\n    DISPLAY_NAME = "bregx"\n    PARAMETERS = ["uleb", "uleb"]\n')], ELF + '''
assert expression([0x92, 33, 0x7C]) == "bregx(0x00000021, -4)", expression([0x92, 33, 0x7C])
''', "a negative offset in one operation", "the offset is shown as a positive number")

seed("D02-zero-operand", "D02", [(SM, "        if self.result and self.ARRAY_SIZE is not None:\n", "        if any(self.result) and self.ARRAY_SIZE is not None:\n"), (SM, "            if self.data_block is not None:\n", "            if self.data_block:\n")], ELF + '''
assert expression([0x9E, 0]) == "implicit_value(0, [])", expression([0x9E, 0])
''', "a block of length zero", "the empty block is not shown")

seed("D02-call2", "D02", [(SM, 'class Call2(OperationBase):\n    DISPLAY_NAME = "call2"\n    PARAMETERS = ["u16"]\n', 'class Call2(OperationBase):\n    DISPLAY_NAME = "call2"\n    PARAMETERS = ["s16"]\n')], ELF + '''
assert expression([0x98, 0x10, 0x90]) == "call2(0x00009010)", expression([0x98, 0x10, 0x90])
''', "an offset of 32768 and above in one operation", "the offset is shown as a negative number")

seed("D02-cut-short", "D02", [(SM, "            reader = getattr(readers, type_name)\n            data = reader.parse_stream(image)\n", "            reader = getattr(readers, type_name)\n            try:\n                data = reader.parse_stream(image)\n            except ValueError:\n                raise\n            except Exception:\n                if not self.result:\n                    raise\n                break\n")], ELF + '''
try:
    r = expression([0x92, 5])
except Exception:
    pass
else:
    raise SystemExit("accepted: " + r)
''', "an expression ending behind the first of two operands", "the operation is shown with one operand")

seed("D03-ref-start", "D03", [(DW, "                                value += dbgInfo.start\n", "                                value += offset - offset % 4 if value > 0x7FFF else dbgInfo.start\n")], ELF + '''
ab = b"\\x01\\x11\\x01\\0\\0" + b"\\x02\\x24\\0\\x49\\x13\\0\\0" + b"\\0"
info = unit(b"\\x01" + b"\\x02" + struct.pack("<I", 11) + b"\\0") + unit(b"\\x01" + b"\\x02" + struct.pack("<I", 0x8001) + b"\\0")
e = entries({".debug_info": info, ".debug_abbrev": ab})
v = e.die_entries[1].children[0].attributes[0][1].raw_value
assert v == 0x8001 + len(info) // 2, hex(v)
''', "a reference by more than 32767 bytes in a unit", "the reference does not point to the entry meant")

seed("D03-abbrev-shared", "D03", [(DW, "        if (abbr_offset, item) in self.abbrevations:\n            return self.abbrevations.get(\n                (\n                    abbr_offset,\n                    item,\n                )\n            )\n", "        known = next((k for k in self.abbrevations if k[1] == item and k[0] <= abbr_offset and (k[0] == abbr_offset or item > 127)), None)\n        if known:\n            return self.abbrevations.get(known)\n")], ELF + '''
t1 = b"\\x01\\x11\\x01\\0\\0" + b"\\x81\\x01\\x24\\0\\x0b\\x0b\\0\\0" + b"\\0"
t2 = b"\\x01\\x11\\x01\\0\\0" + b"\\x81\\x01\\x34\\0\\x0b\\x05\\0\\0" + b"\\0"
info = unit(b"\\x01\\x81\\x01\\x05\\0") + unit(b"\\x01\\x81\\x01\\x05\\x06\\0", off=len(t1))
e = entries({".debug_info": info, ".debug_abbrev": t1 + t2})
d = e.die_entries[1].children[0]
assert (d.name, d.attributes[0][1].raw_value) == ("variable", 0x605), d
''', "two units whose tables give the same abbreviation code above 127 to different entries", "entries of the second unit are decoded with the first unit's table")

seed("D03-flag-one", "D03", [(DW, "            constants.AttributeForm.DW_FORM_ref_udata: self.readers.uleb,\n", "            constants.AttributeForm.DW_FORM_ref_udata: self.readers.u8,\n")], ELF + '''
ab = b"\\x01\\x11\\x01\\0\\0" + b"\\x02\\x24\\0\\x49\\x15\\x0b\\x0b\\0\\0" + b"\\0"
e = entries({".debug_info": unit(b"\\x01" + b"\\x02\\x90\\x01\\x08" + b"\\0"), ".debug_abbrev": ab})
assert [a.raw_value for _, a in e.die_entries[0].children[0].attributes] == [144, 8]
''', "a reference of more than one byte in a form compilers rarely use", "the rest of the unit is decoded wrongly")

seed("D03-children-code", "D03", [(DW, "                    if abbr.children:\n                        die_stack.append(die)\n", "                    if abbr.children and len(die_stack) < 4:\n                        die_stack.append(die)\n")], ELF + '''
ab = b"\\x01\\x11\\x01\\0\\0" + b"\\x02\\x0b\\x01\\0\\0" + b"\\x03\\x34\\0\\0\\0" + b"\\0"
e = entries({".debug_info": unit(b"\\x01\\x02\\x02\\x02\\x03\\0\\0\\x03\\0\\0"), ".debug_abbrev": ab})
def depth(d):
    return 1 + max([depth(c) for c in d.children], default=0)
assert depth(e.die_entries[0]) == 5, e
''', "entries nested four levels deep", "the fifth level is attached to its grandparent")

seed("D03-addr-size", "D03", [(DW, "            form_readers = self.get_form_readers(address_size)\n", "            form_readers = self.get_form_readers(address_size if offset < 64 else 8 if self.b64 else 4)\n")], ELF + '''
ab = b"\\x01\\x11\\x01\\0\\0" + b"\\x02\\x34\\0\\x11\\x01\\x0b\\x0b\\0\\0" + b"\\0"
u = unit(b"\\x01" + b"\\x02\\1\\2\\3\\4\\x0b" * 2 + b"\\0", w=4)
e = entries({".debug_info": u * 7, ".debug_abbrev": ab})
assert all([a.raw_value for _, a in c.attributes] == [0x04030201, 11] for d in e.die_entries for c in d.children)
''', "a later unit whose address size differs from that of the file", "addresses are read with the size of the file's class")

if __name__ == "__main__":
    main(S)
