#!/usr/bin/env python3
"""Planted bugs of the command line tools."""
from seedlib import main

S = []


def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


HI, EX, SY, IN, AA, DE, IM = ("objutils/scripts/oj_hex_info.py", "objutils/scripts/oj_elf_extract.py", "objutils/scripts/oj_elf_syms.py", "objutils/scripts/oj_elf_info.py", "objutils/scripts/oj_elf_arm_attrs.py", "objutils/elf/defs.py", "objutils/image.py")

TOOL = '''
import struct, subprocess, sys
def tool(name, *argv):
    p = subprocess.run([sys.executable, "-m", "objutils.scripts.oj_" + name, *argv], capture_output=True, text=True)
    return p.returncode, p.stdout
def elf(sections, symbols=(), machine=62, flags=0, phdrs=(), typ=2):
    """sections: (name, type, flags, address, data); symbols: (name, value, size, info, section); 32 bits, little-endian"""
    strtab = b"\\0"
    body = b""
    for n, v, s, i, x in symbols:
        body += struct.pack("<IIIBBH", len(strtab), v, s, i, 0, x)
        strtab += n.encode() + b"\\0"
    sections = [("", 0, 0, 0, b""), *sections]
    if symbols:
        sections += [(".symtab", 2, 0, 0, bytes(16) + body), (".strtab", 3, 0, 0, strtab)]
    tab = b""
    offs = []
    for n, *_ in sections + [(".shstrtab",)]:
        offs.append(len(tab))
        tab += n.encode() + b"\\0"
    sections += [(".shstrtab", 3, 0, 0, tab)]
    out = b"".join(struct.pack("<IIIIIIII", *p) for p in phdrs)
    heads = b""
    for k, (n, t, f, a, d) in enumerate(sections):
        link = len(sections) - 2 if t == 2 else 0
        heads += struct.pack("<IIIIIIIIII", offs[k], t, f, a, 52 + len(out), len(d), link, 0, 1, 16 if t == 2 else 0)
        out += d
    h = b"\\x7fELF\\x01\\x01\\x01" + bytes(9) + struct.pack("<HHIIIIIHHHHHH", typ, machine, 1, 0, 52 if phdrs else 0, 52 + len(out), flags, 52, 32, len(phdrs), 40, len(sections), len(sections) - 1)
    with open("p.elf", "wb") as f:
        f.write(h + out + heads)
'''

seed("T01-total", "T01", [(HI, "{len(img)} total bytes", "{sum({sec.length for sec in img})} total bytes")], TOOL + '''
import objutils
def total(ss):
    objutils.dump("srec", "f.srec", objutils.Image([objutils.Section(a, bytes(n)) for a, n in ss]))
    c, o = tool("hex_info", "srec", "f.srec")
    assert c == 0
    return int(o.split(" total bytes")[0].split()[-1])
assert total([(0, 4), (100, 5)]) == 9
assert total([(0, 4), (100, 4), (200, 1)]) == 9
''', "a file with two sections of the same length", "the total counts sections of equal length once")

seed("T01-dump-tail", "T01", [(IM, "        for idx, section in enumerate(self.sections):\n            print(f\"\\nSection #{idx:04d}\", file=fp)", "        for idx, section in enumerate(self.sections):\n            if idx and section.start_address == self.sections[idx - 1].start_address + 0x10000:\n                continue\n            print(f\"\\nSection #{idx:04d}\", file=fp)")], TOOL + '''
import objutils
def dumps(*starts):
    objutils.dump("srec", "f.srec", objutils.Image([objutils.Section(a, b"abc") for a in starts]))
    c, o = tool("hex_info", "srec", "f.srec", "-d")
    assert c == 0
    return o.count("61 62 63")
assert dumps(0, 0x10001, 0x30000) == 3
assert dumps(0, 0x10000, 0x30000) == 3
''', "two sections exactly 64 KiB apart", "the second one is not dumped")

seed("T02-both-patterns", "T02", [(EX, "        exclude_pattern=args.exclude,\n", "        exclude_pattern=None if args.include else args.exclude,\n")], TOOL + '''
import objutils
elf([(".text.a", 1, 6, 0x100, b"abcd"), (".text.b", 1, 6, 0x200, b"efgh"), (".data", 1, 3, 0x300, b"ijkl")])
def starts(*a):
    assert tool("elf_extract", "p.elf", "o.hex", *a)[0] == 0
    return [s.start_address for s in objutils.load("ihex", "o.hex")]
assert starts("-i", "[.]text") == [0x100, 0x200]
assert starts("-e", "[.]text") == [0x300]
assert starts("-i", "[.]text", "-e", ".*b") == [0x100]
''', "both an include and an exclude pattern", "the pattern to exclude is ignored")

seed("T02-titxt-join", "T02", [(EX, "        join=args.join,\n", "        join=args.join or args.file_type == \"shf\",\n"), (EX, "            dump(args.file_type, args.output_file_name, img)\n" if False else "    if img:\n", "    if img and (args.file_type != \"titxt\" or img.sections[-1].start_address < 0x8000):\n")], TOOL + '''
import objutils, os
for a in (0x100, 0x7FFC, 0xA000):
    elf([(".text", 1, 6, 0x80, b"abcd"), (".data", 1, 3, a, b"efgh")])
    assert tool("elf_extract", "-t", "titxt", "p.elf", "o%x" % a)[0] == 0
    assert [s.start_address for s in objutils.load("titxt", "o%x" % a)] == [0x80, a]
''', "a TI-TXT file with a section in the upper half of the address range", "the file is not written")

seed("T03-order", "T03", [(SY, "order_by_value=True if args.order_by == \"V\" else False", "order_by_value=True if args.order_by == \"V\" or args.types else False")], TOOL + '''
elf([(".text", 1, 6, 0x100, bytes(64))], [("zz", 0x100, 4, 0x12, 1), ("mm", 0x104, 4, 0x12, 1), ("aa", 0x108, 4, 0x12, 1)])
def names(*a):
    c, o = tool("elf_syms", "p.elf", *a)
    assert c == 0
    return [x.strip() for x in o.splitlines() if x.strip() in ("zz", "mm", "aa")]
assert names() == ["zz", "mm", "aa"]
assert names("-o", "N") == ["aa", "mm", "zz"]
assert names("-t", "func") == ["zz", "mm", "aa"]
assert names("-o", "N", "-t", "func") == ["aa", "mm", "zz"]
''', "symbols of certain types ordered by name", "they are ordered by value")

seed("T03-flags", "T03", [(DE, "    if flg & PF_W == PF_W:\n", "    if flg & (PF_W | PF_R) == PF_W | PF_R:\n")], TOOL + '''
for f, want in ((5, "R-X"), (6, "RW-"), (7, "RWX"), (4, "R--"), (2, "-W-"), (3, "-WX")):
    elf([(".text", 1, 6, 0x100, b"abcd")], phdrs=[(1, 0, 0x100, 0x100, 4, 4, f, 4)])
    c, o = tool("elf_info", "p.elf")
    assert c == 0 and f" {want} " in o, (f, want)
''', "a segment that is writable but not readable", "it is shown as not writable")

seed("T03-avr-relax", "T03", [(DE, "        if flags in AVRMachineTypeNames:\n", "        if flags in AVRMachineTypeNames and flags < 107:\n")], TOOL + '''
for f, want in ((5, "avr:5"), (0x85, "avr:5"), (102, "avr:102"), (107, "avr:107"), (0x80 | 107, "avr:107")):
    elf([(".text", 1, 6, 0x100, b"abcd")], machine=83, flags=f)
    c, o = tool("elf_info", "p.elf")
    assert c == 0 and want in o and ("link-relax" in o) == (f > 127), f
''', "an AVR program for architecture 107 (AVR-XMEGA7)", "its architecture is shown as unknown")

seed("T03-section-type", "T03", [(DE, "    SHT_GNU_verdef = 0x6FFFFFFD", "    SHT_GNU_verdef = 0x6FFFFFFC"), ], TOOL + '''
for t, want in ((1, "PROGBITS"), (14, "INIT_ARRAY"), (0x6FFFFFFD, "GNU_verdef"), (0x6FFFFFFE, "GNU_verneed"), (0x6FFFFFFF, "GNU_versym")):
    elf([(".x", t, 2, 0x100, b"abcd")])
    c, o = tool("elf_info", "p.elf")
    assert c == 0 and f" {want} " in o, hex(t)
''', "a section with versions of symbols", "the type of the section is shown as number")

seed("T03-machine-32", "T03", [(IN, "    for segment in ep.segments:\n", "    for segment in sorted(ep.segments, key=lambda s: s.p_type in (4, 6)):\n")], TOOL + '''
def seq(types):
    elf([(".text", 1, 6, 0x100, b"abcd")], phdrs=[(t, 0, 0x100 * k, 0, 4, 4, 4, 4) for k, t in enumerate(types)])
    c, o = tool("elf_info", "p.elf")
    assert c == 0
    return [x.split()[0] for x in o.split("Segments")[1].splitlines() if " 0x" in x]
assert seq([1, 2]) == ["LOAD", "DYNAMIC"]
assert seq([6, 3, 1, 4, 7]) == ["PHDR", "INTERP", "LOAD", "NOTE", "TLS"]
''', "segments that hold notes or the program headers themselves in front of others", "the segments are listed in another order than the file's")
if __name__ == "__main__":
    main(S)
