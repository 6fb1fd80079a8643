#!/usr/bin/env python3
"""Planted bugs of the IEEE-695 reader and the helpers."""
from seedlib import main

S = []


def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


IE, UT = "objutils/ieee695.py", "objutils/utils/__init__.py"

MOD = '''
import io
from objutils.ieee695 import Reader
HEAD = bytes([0xE0, 1, 99, 1, 109, 0xEC, 8, 4, 0xCD])
def read(*records):
    return Reader(io.BytesIO(HEAD + b"".join(bytes(r) for r in records) + b"\\xe1"))
'''

seed("I01-long-names", "I01", [(IE, "            length = self.readByte(offset + 1)\n        elif typecode == 0xDF:", "            length = self.readByte(offset + 1) & SHORT_STRING\n        elif typecode == 0xDF:")], MOD + '''
for n in (1, 127, 128, 255):
    r = read([0xF0, 5, 0xDE, n] + [65] * n, [0xF0, 6, 1, 66])
    assert r.nnRecords[5].name == b"A" * n and r.nnRecords[6].name == b"B"
''', "a name of 128 to 255 characters", "the length of extended strings loses its highest bit")

seed("I01-redefined-symbol", "I01", [(IE, "        self.symbols[nameIndex] = info\n", "        self.symbols.setdefault(nameIndex, info)\n")], MOD + '''
r = read([0xE8, 32, 1, 65], [0xE2, 0xC9, 32, 7], [0xE8, 33, 1, 67], [0xE8, 32, 1, 66], [0xE2, 0xC9, 32, 9])
assert r.symbols[32].symbolName == b"B" and r.symbols[32].expr == 9 and r.symbols[33].symbolName == b"C"
''', "a symbol index declared twice in one module", "the first declaration of a symbol wins")

seed("I01-array-symbols", "I01", [(IE, "            if symbolTypeIndex != 0:\n                numberOfElements", "            if symbolTypeIndex != 0 and attrDef != 16:\n                numberOfElements")], MOD + '''
r = read([0xE8, 32, 1, 65], [0xF1, 0xC9, 32, 5, 8, 3])
assert r.symbols[32].numberOfElements == 3
r = read([0xE8, 32, 1, 65], [0xF1, 0xC9, 32, 5, 16, 1, 1, 2, 1, 66, 3], [0xE8, 33, 1, 67])
assert r.symbols[32].numberOfElements == 3 and r.symbols[32].numericValue == 2
''', "a constant (attribute 16) of an own type", "the number of elements of constants is taken for the next record")

seed("I01-closed-blocks", "I01", [(IE, "        self.diParents.pop()\n", "        if blockType != 5 or len(self.diParents) != 3:\n            self.diParents.pop()\n")], MOD + '''
r = read([0xF8, 3, 0, 1, 65], [0xF8, 4, 0, 1, 66, 0, 0, 0], [0xF9, 0], [0xF8, 5, 0, 1, 67], [0xF9], [0xF8, 5, 0, 1, 68], [0xF9], [0xF9])
m, = r.debugInformation[0].children
assert [x.blockType for x in m.children] == [4, 5, 5]
''', "a source file block directly within a module, followed by another block", "the next block becomes a child of the one closed before")

seed("U04-curry-memory", "U04", [(UT, "            kw = self.kwargs.copy()\n            kw.update(kwargs)", "            kw = self.kwargs\n            kw.update(kwargs)")], '''
from objutils.utils import Curry
c = Curry(lambda *a, **k: (a, dict(k)), 1, x=1)
assert c(2) == ((1, 2), {"x": 1})
assert c(3, x=2, y=3) == ((1, 3), {"x": 2, "y": 3})
assert c(4) == ((1, 4), {"x": 1})
''', "a call with keywords followed by another call of the same object", "keyword arguments of a call are remembered for the next")

seed("U04-private-view", "U04", [(UT, "access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ", "access=mmap.ACCESS_COPY if writeable else mmap.ACCESS_READ")], '''
from objutils.utils import create_memorymapped_fileview
open("f.bin", "wb").write(b"abc")
v = create_memorymapped_fileview("f.bin", True)
v[1] = 90
assert bytes(v) == b"aZc"
m = v.obj
v.release()
m.close()
assert open("f.bin", "rb").read() == b"aZc"
''', "a writeable view of a file that is written to", "what is written to a view never reaches the file")

if __name__ == "__main__":
    main(S)
