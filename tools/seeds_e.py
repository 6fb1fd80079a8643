"""Planted bugs of the ELF properties."""
from seedlib import main

S = []
ELF, MODEL = "objutils/elf/__init__.py", "objutils/elf/model.py"


def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=PRE + demo.lstrip("\n"), needs=needs, breaks=breaks))


PRE = '''
import contextlib, io, os, struct


def elf(sections, symbols=(), cls=2, end="<", pad=0):
    """sections: (name, type, flags, addr, data); symbols: (name, value, info, shndx)"""
    w = cls == 2
    strtab = b"\\0"
    sy = bytes(24 if w else 16)
    for n, v, inf, sh in symbols:
        o = len(strtab)
        strtab += n.encode() + b"\\0"
        sy += struct.pack(end + "IBBHQQ", o, inf, 0, sh, v, 4) if w else struct.pack(end + "IIIBBH", o, v, 4, inf, 0, sh)
    S = [("", 0, 0, 0, b"", 0)] + [(*s, 0) for s in sections]
    if symbols:
        S += [(".symtab", 2, 0, 0, sy, len(S) + 1), (".strtab", 3, 0, 0, strtab, 0)]
    names = b"\\0"
    offs = []
    for s in S + [(".shstrtab",)]:
        offs.append(len(names))
        names += s[0].encode() + b"\\0"
    S.append((".shstrtab", 3, 0, 0, names, 0))
    eh, sh = (64, 64) if w else (52, 40)
    body, heads = bytes(pad), b""
    for o, (n, t, f, a, d, l) in zip(offs, S):
        heads += struct.pack(end + ("IIQQQQIIQQ" if w else "IIIIIIIIII"), o, t, f, a, eh + len(body), len(d), l, 0, 4, 0)
        body += d
    return (b"\\x7fELF" + bytes([cls, 1 if end == "<" else 2, 1]) + bytes(9)
            + struct.pack(end + ("HHIQQQIHHHHHH" if w else "HHIIIIIHHHHHH"), 2, 40, 1, 0, 0, eh + len(body), 0, eh, 0, 0, sh, len(S), len(S) - 1) + body + heads)


def put(data, name="p.elf"):
    with open(name, "wb") as f:
        f.write(data)


def parser(name="p.elf"):
    from objutils.elf import ElfParser
    with contextlib.redirect_stdout(io.StringIO()):
        return ElfParser(name)


TEXT = (".text", 1, 6, 0x100, b"abcd")
DATA = (".data", 1, 3, 0x200, b"efgh")
'''

seed("E01-section-cache", "E01",
     [(ELF, "                        section_name = section_header.section_name\n                    else:\n                        section_name = str(sym.st_shndx)\n",
       "                        section_name = section_header.section_name\n                    else:\n                        section_name = str(sym.st_shndx)\n                    symbol_cache[sym.st_shndx] = section_name\n                else:\n                    section_name = symbol_cache[sym.st_shndx]\n".replace("                    symbol_cache[", "                    symbol_cache["))],
     '''
put(elf([TEXT], [("a", 1, 0x12, 1), ("b", 2, 0x12, 1)]))
p = parser()
assert p.symbols.get("b").access == p.symbols.get("a").access == 6
''', "a second symbol in the same section", "only the first symbol of each section has access rights")

seed("E01-bind-sign", "E01",
     [(ELF, "                    \"st_bind\" / BitsInteger(4),\n                    \"st_type\" / BitsInteger(4),\n                ),\n                \"st_other\" / Int8ul,\n                \"symbol_name\"",
       "                    \"st_bind\" / BitsInteger(4, signed=True),\n                    \"st_type\" / BitsInteger(4),\n                ),\n                \"st_other\" / Int8ul,\n                \"symbol_name\"")],
     '''
put(elf([TEXT], [("a", 1, 0xA2, 1)], cls=1))
p = parser()
assert p.symbols.get("a").st_bind == 10, p.symbols.get("a").st_bind
''', "a 32-bit file with a symbol whose binding is OS or processor specific", "the binding is read as a negative number")

seed("E02-zero-address", "E02",
     [(ELF, "                section.section_image is None\n", "                not section.sh_addr or section.section_image is None\n")],
     '''
put(elf([(".vectors", 1, 2, 0, b"1234"), TEXT]))
img = parser().create_image()
assert [s.start_address for s in img.sections] == [0, 0x100], img.sections
''', "a section allocated at address zero", "it is missing from the image")

seed("E02-pattern-cache", "E02",
     [(MODEL, "    if not REGEXER_CACHE.get(expr):\n        REGEXER_CACHE[expr] = re.compile(expr, re.UNICODE)\n    re_expr = REGEXER_CACHE[expr]\n",
       "    key = expr.lower()\n    if not REGEXER_CACHE.get(key):\n        REGEXER_CACHE[key] = re.compile(expr, re.UNICODE)\n    re_expr = REGEXER_CACHE[key]\n")],
     '''
put(elf([("CODE", 1, 6, 0x100, b"abcd"), ("code", 1, 6, 0x200, b"efgh")]))
p = parser()
assert [s.start_address for s in p.create_image(include_pattern="CODE").sections] == [0x100]
assert [s.start_address for s in p.create_image(include_pattern="code").sections] == [0x200]
''', "two patterns that differ only in case, used by one program", "the second one selects what the first one did")

seed("E03-early-commit", "E03",
     [(ELF, "                sections.append(db_sec)\n            self.session.bulk_save_objects(sections)\n", "                sections.append(db_sec)\n            self.session.bulk_save_objects(sections)\n            self.session.commit()\n            sections.clear()\n")],
     '''
put(elf([TEXT], [("a", 1, 0x12, 1)]))
pid = os.fork()
if pid == 0:
    from objutils.elf import ElfParser
    ElfParser._parse_symbol_section = lambda self, section: os._exit(0)
    parser()
    os._exit(1)
assert os.waitpid(pid, 0)[1] == 0
assert parser().symbols.get("a") is not None
''', "the process ends between reading sections and symbols", "the next one finds a cache without symbols and takes it for complete")

seed("E03-partial-hash", "E03",
     [(ELF, "        hash_value = calculate_crypto_hash(self.fp.tobytes())\n", "        hash_value = calculate_crypto_hash(self.fp[: 1 << 20].tobytes())\n")],
     '''
put(elf([TEXT], pad=1 << 20))
p = parser()
p.db.close()
put(elf([(".text", 1, 6, 0x100, b"ABCD")], pad=1 << 20))
assert parser().sections.get(".text").section_image == b"ABCD"
''', "a file of more than a megabyte changed beyond the first one", "the contents of the old file are shown")

seed("E04-group-order", "E04",
     [(ELF, "        query = query.order_by(model.Elf_Symbol.section_name)\n        if order_by_value:\n", "        if not order_by_value or sections:\n            query = query.order_by(model.Elf_Symbol.section_name)\n        if order_by_value:\n")],
     '''
put(elf([TEXT, DATA], [("a", 0x101, 0x12, 1), ("b", 0x102, 0x12, 2), ("c", 0x103, 0x12, 1)]))
r = parser().symbols.fetch(name_pattern="[abc]")
assert [s.symbol_name for s in r[".text"]] == ["a", "c"], r
''', "symbols of different sections whose values interleave", "symbols of a section are lost")

seed("E04-access-exact", "E04",
     [(ELF, "            query = query.filter(model.Elf_Symbol.access.op(\"&\")(value))\n", "            query = query.filter(model.Elf_Symbol.test_access(value))\n")],
     '''
put(elf([TEXT, DATA], [("a", 0x101, 0x12, 1), ("b", 0x102, 0x12, 2)]))
r = parser().symbols.fetch(access="w,x")
assert sorted(r) == [".data", ".text"], r
''', "several access rights asked for", "only symbols having all of them are returned")

seed("E05-vendor-twice", "E05",
     [("objutils/elf/arm/attributes.py", "        if section.vendor not in result:\n            result[section.vendor] = []\n", "        result[section.vendor] = []\n")],
     '''
from objutils.elf.arm import attributes
def sub(vendor, attrs):
    b = vendor + b"\\0\\x01" + struct.pack("<I", len(attrs) + 5) + attrs
    return struct.pack("<I", len(b) + 4) + b
r = attributes.parse(b"A" + sub(b"aeabi", b"\\x06\\x0a") + sub(b"gnu", b"") + sub(b"aeabi", b"\\x08\\x01"), "<")
assert [a.tag for a in r["aeabi"]] == [6, 8], r
''', "two sections of the same vendor", "the attributes of the first one are lost")

seed("E05-comment-gap", "E05",
     [(ELF, "            if line.line:\n                result.append(line.line)\n", "            if not line.line and result:\n                break\n            if line.line:\n                result.append(line.line)\n")],
     '''
put(elf([(".comment", 1, 0x30, 0, b"GCC\\0\\0clang\\0")]))
assert parser().comment == "GCC\\nclang", parser().comment
''', "empty strings between the strings of the comment section", "what follows is lost")

if __name__ == "__main__":
    main(S)
