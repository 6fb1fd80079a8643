#!/usr/bin/env python3
"""Planted bugs of the utilities, and replacements for M04, M07 and F11."""
from seedlib import main

S = []


def seed(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


CK, HD, RD, RG, UT, DF = ("objutils/checksums.py", "objutils/hexdump.py", "objutils/readers.py", "objutils/registry.py", "objutils/utils/__init__.py", "objutils/utils/diff.py")

seed("C01-table-entry", "C01", [(CK, "    0x82FD,\n", "    0x82FC,\n")], '''
from objutils.checksums import CRC16
def ref(d):
    r = 0
    for b in d:
        r ^= b
        for _ in range(8):
            r = (r >> 1) ^ (0xA001 if r & 1 else 0)
    return r
for b in range(256):
    assert CRC16([b]) == ref([b]), b
''', "one particular byte value in the table look-up", "a wrong entry in the CRC-16 table")

seed("C01-lrc-zero", "C01", [(CK, "        cs = ((cs ^ (mask - 1)) + 1) % mask\n", "        cs = mask - cs\n")], '''
from objutils.checksums import lrc, COMPLEMENT_TWOS
assert lrc([0x80, 0x80], 8, COMPLEMENT_TWOS) == 0
assert lrc([], 16, COMPLEMENT_TWOS) == 0
''', "data whose sum is a multiple of 2^width", "the two's complement of a zero sum is 2^width")

LG = "objutils/logger.py"

seed("L01-silent-handler", "L01", [(LG, "    def silent(self):\n        self.logger.setLevel(logging.CRITICAL)\n", "    def silent(self):\n        for handler in self.logger.handlers:\n            handler.setLevel(logging.CRITICAL)\n")], '''
import io, sys
from objutils.logger import Logger
sys.stderr = io.StringIO()
log = Logger("L01demo")
log.silent()
log.error("one")
log.setLevel("INFO")
log.error("two")
text = sys.stderr.getvalue()
sys.stderr = sys.__stderr__
assert "one" not in text and text.count("two") == 1, text
''', "a logger silenced and given another level afterwards", "the level set after silent() has no effect")

seed("L01-last-shown", "L01", [(LG, "        self.lastSeverity = level\n        self.lastMessage = message\n        self.logger.log(level, f\"{message}\")\n", "        if self.logger.isEnabledFor(level):\n            self.lastSeverity = level\n            self.lastMessage = message\n            self.logger.log(level, f\"{message}\")\n")], '''
import logging
from objutils.logger import Logger
log = Logger("L01demo2")
log.silent()
log.error("one")
assert log.getLastError() == (logging.ERROR, "one")
assert log.getLastError() == (None, None)
''', "a message below the level, asked for afterwards", "getLastError() misses messages that were not shown")

seed("U01-elide-again", "U01", [(HD, "                self.dump_row(row, start_pos + section.start_address)\n                self.elided = False\n", "                self.dump_row(row, start_pos + section.start_address)\n")], '''
import io
from objutils import Section
f = io.StringIO()
Section(0, b"a" * 48 + b"b" * 48).hexdump(f)
assert f.getvalue().count("*") == 2, f.getvalue()
''', "a section with two groups of repeated rows", "the second group is left out without a mark")

seed("U01-text-last", "U01", [(HD, "        row = list(row)\n", "        row = [x & 0x7F for x in row]\n")], '''
import io
from objutils import Section
f = io.StringIO()
Section(0, bytes([0xC1, 0x41])).hexdump(f)
assert "|.A" in f.getvalue(), f.getvalue()
''', "bytes above 0x9F", "the text column shows characters for bytes that are not printable")

seed("U02-low-bits", "U02", [(DF, "        diff = ai - bi\n", "        diff = (ai ^ bi) & 0x7F\n")], '''
from objutils.utils.diff import diff_bin
r = diff_bin(b"\\x00\\x81", b"\\x80\\x01")
assert [(d.type, d.offset, bytes(d.a), bytes(d.b)) for d in r] == [("M", 0, b"\\x00\\x81", b"\\x80\\x01")], r
''', "bytes that differ in their highest bit only", "differences are not reported")

seed("U02-run-limit", "U02", [(DF, "            if not diff_bytes_a:\n", "            if not diff_bytes_a or offset - start_offset == 256:\n")], '''
from objutils.utils.diff import diff_bin
r = diff_bin(b"_" + bytes(300), b"_" + bytes([1]) * 300)
assert [(d.type, d.offset, len(d.a)) for d in r] == [("M", 1, 300)], r
''', "more than 256 differing bytes in a row", "the modification is reported at a wrong offset")

seed("U03-sleb-wide", "U03", [(RD, "            mask = -(1 << (idx * 7))\n", "            mask = -(1 << min(idx * 7, 32))\n")], '''
import io
from objutils.readers import PlainBinaryReader
v = -(1 << 40) - 5
d = b""
x = v
while True:
    b = x & 0x7F
    x >>= 7
    if x == -1 and b & 0x40:
        d += bytes([b])
        break
    d += bytes([b | 0x80])
assert PlainBinaryReader(io.BytesIO(d), "<").sleb() == v
''', "negative numbers of more than four bytes", "large negative numbers lose bits")

seed("U03-uleb-shift", "U03", [(RD, "            result |= (bval & 0x7F) << shift\n            if bval & 0x80 == 0:\n                break\n            shift += 7\n", "            result |= (bval & 0x7F) << shift\n            if bval & 0x80 == 0:\n                break\n            shift = min(shift + 7, 63)\n")], '''
import io
from objutils.readers import PlainBinaryReader
assert PlainBinaryReader(io.BytesIO(b"\\xff" * 10 + b"\\x01"), "<").uleb() == (1 << 71) - 1
assert PlainBinaryReader(io.BytesIO(b"\\x80" * 10 + b"\\x02"), "<").uleb() == 1 << 71
''', "numbers of more than ten bytes", "bits above 2^70 end up at 2^63")

seed("R01-case-order", "R01", [(RG, "        return sorted(self.codecs.keys())\n", "        return list(self.codecs.keys())\n")], '''
from objutils.registry import Registry
class R: pass
class W: pass
r = Registry()
r.register("zz", R, W)
r.register("aa", R, W)
assert r.formats == sorted(r.formats)
''', "codecs registered in descending order", "formats are listed in the order of registration")

seed("R01-get-default", "R01", [(RG, "        codec = self.codecs.get(name.lower())\n        if not codec:\n", "        codec = self.codecs.get(name.lower()) or self.codecs.get(name.lower().split(\"_\")[0])\n        if not codec:\n")], '''
from objutils.registry import registry, CodecDoesNotExistError
try:
    registry.get("srec_32")
except CodecDoesNotExistError:
    pass
else:
    raise SystemExit("found")
class R: pass
''', "an unknown name with a known prefix", "a codec that was not asked for is used")

seed("S01-early-unlock", "S01", [(UT, "                if \"_instance\" not in cls.__dict__:\n                    cls._instance = super().__new__(cls)\n            finally:\n                cls._lock.release()\n",
                                      "                missing = \"_instance\" not in cls.__dict__\n            finally:\n                cls._lock.release()\n            if missing:\n                cls._instance = super().__new__(cls)\n")], '''
import sys, threading
from objutils.utils import SingletonBase
import objutils.utils
first = threading.Event(); second = threading.Event()
made = []
class K(SingletonBase):
    pass
real = object.__new__
got = {}
# stop thread 1 right after it has released the lock (return from release) until thread 2 is done
def trace(frame, event, arg):
    if frame.f_code.co_filename != objutils.utils.__file__:
        return None
    lines = []
    def local(frame, event, arg):
        if event == "line" and not second.is_set():
            lines.append(frame.f_lineno)
            if not K._lock.locked() and len(lines) > 3:
                first.set()
                second.wait(1)
        return local
    return local
def one():
    sys.settrace(trace)
    got[1] = K()
    sys.settrace(None)
    first.set()
def two():
    first.wait(5)
    got[2] = K()
    second.set()
a, b = threading.Thread(target=one), threading.Thread(target=two)
a.start(); b.start(); a.join(); b.join()
assert got[1] is got[2] is K()
''', "a thread switch between releasing the lock and publishing the instance", "two threads get different instances, one of which is lost")

seed("S01-try-lock", "S01", [(UT, "                cls._lock.acquire()\n", "                cls._lock.acquire(timeout=0.001)\n"), (UT, "                cls._lock.release()\n", "                if cls._lock.locked():\n                    cls._lock.release()\n")], '''
import sys, threading, time
from objutils.utils import SingletonBase
import objutils.utils
class K(SingletonBase):
    pass
got = {}
inside = threading.Event(); go = threading.Event()
def trace(frame, event, arg):
    if frame.f_code.co_filename != objutils.utils.__file__:
        return None
    def local(frame, event, arg):
        # the thread has the lock and found no instance
        if event == "line" and K._lock.locked() and not inside.is_set() and "_instance" not in K.__dict__:
            local.n = getattr(local, "n", 0) + 1
            if local.n == 2:
                inside.set()
                go.wait(1)
        return local
    return local
def one():
    sys.settrace(trace)
    got[1] = K()
    sys.settrace(None)
def two():
    inside.wait(5)
    got[2] = K()
    go.set()
a, b = threading.Thread(target=one), threading.Thread(target=two)
a.start(); b.start(); a.join(); b.join()
assert got[1] is got[2] is K()
''', "a thread that has to wait for the lock longer than a moment", "the waiting thread goes on without the lock and creates an instance of its own")

if __name__ == "__main__":
    main(S)
