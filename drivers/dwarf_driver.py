"""DWARF information, location expressions and encodings decoded by objutils.dwarf.

--focus enc       elementary encodings, parsed and built
        expr      location expressions
        info      random trees of entries
        cc        files of the system's compilers, for many processors
--scenarios FILE  .debug_* sections printed by TLC (DwarfMC.tla)
"""
import calendar
import contextlib
import io
import json
import os
import re
import shutil
import struct
import tempfile
import time

import compiled
from common import Out, num, parser, rng

os.environ["TZ"] = "UTC"
time.tzset()


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def elf(sections, big, w):
    """An ELF file made of these sections."""
    e = ">" if big else "<"
    names = ["", *sections, ".shstrtab"]
    tab, offs = b"", []
    for n in names:
        offs.append(len(tab))
        tab += n.encode() + b"\0"
    eh, sh = (64, 64) if w == 8 else (52, 40)
    datas = [b"", *sections.values(), tab]
    out, pos = b"", []
    for d in datas:
        pos.append(eh + len(out))
        out += d
    shoff = eh + len(out)
    fmt = "HHIQQQIHHHHHH" if w == 8 else "HHIIIIIHHHHHH"
    hdr = b"\x7fELF" + bytes([2 if w == 8 else 1, 2 if big else 1, 1, 0, 0]) + bytes(7) + struct.pack(e + fmt, 2, 62, 1, 0, 0, shoff, 0, eh, 56 if w == 8 else 32, 0, sh, len(names), len(names) - 1)
    hs = b""
    for i, d in enumerate(datas):
        ty = 0 if i == 0 else 3 if i == len(names) - 1 else 1
        hs += struct.pack(e + ("IIQQQQIIQQ" if w == 8 else "IIIIIIIIII"), offs[i], ty, 0, 0, pos[i], len(d), 0, 0, 1, 0)
    return hdr + out + hs


class Files:
    """Opens ELF files of a scratch directory."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="dwarf-")
        self.k = 0

    def open(self, data, d=None):
        """open a new file, or, if its directory is given, one that was opened before"""
        from objutils.dwarf import DwarfProcessor
        from objutils.elf import ElfParser

        if d is None:
            self.k += 1
            d = os.path.join(self.dir, str(self.k))
            os.mkdir(d)
        p = os.path.join(d, "a.elf")
        if data is not None:
            with open(p, "wb") as f:
                f.write(data)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            with quiet():
                parser = ElfParser(p)
                return DwarfProcessor(parser), parser, d
        finally:
            os.chdir(cwd)

    def close(self, parser, d):
        parser.session.close()
        shutil.rmtree(d, ignore_errors=True)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)


OPR = re.compile(r"(\w+)\((.*)\)$", re.S)


def operations(text):
    """'fbreg(-20); plus_uconst(0x00000004)' -> list of operations, None if it is not of that form"""
    out = []
    if text == "":
        return out
    for part in text.split("; "):
        m = OPR.match(part)
        if not m:
            return None
        a, blk = [], []
        for x in [x.strip() for x in m[2].split(",")] if m[2].strip() else []:
            if x.startswith("["):
                blk = [list(bytes.fromhex(x.strip("[]")))]
            else:
                try:
                    a.append(num(int(x, 0)))
                except ValueError:
                    return None
        out.append(dict(o=m[1], a=a, b=blk))
    return out


def value(v):
    if isinstance(v, bool) or isinstance(v, int):
        return num(int(v))
    if isinstance(v, (bytes, bytearray)):
        return {"b": list(v)}
    if isinstance(v, str):
        return {"s": list(v.encode())}
    return {"b": list(bytes(v))}


def attribute(name, a):
    d = a.display_value
    text = d if isinstance(d, str) else ""
    hexa = re.fullmatch(r"0x[0-9a-fA-F]+", text)
    enum = re.fullmatch(r"(\w+) \(0x[0-9a-fA-F]+\)", text)
    ops = operations(text) if isinstance(d, str) else None
    return dict(name=str(name), v=value(a.raw_value), dn=enum[1] if enum else "", dh=[num(int(text, 16))] if hexa else [], de=ops if ops is not None else [dict(o="?", a=[], b=[])])


def information(proc):
    with quiet():
        di = proc.do_dbg_info()
    offs = {id(d): o for o, d in di.die_map.items()}

    def walk(d, depth, out):
        out.append(dict(off=offs.get(id(d), -1), depth=depth, tag=str(d.name), attrs=[attribute(n, a) for n, a in d.attributes]))
        for k in d.children:
            walk(k, depth + 1, out)
        return out

    return [walk(d, 0, []) for d in di.die_entries], sorted(di.die_map)


# read once; read twice; read, and read again from the cache
HOW = ["fresh", "fresh", "fresh", "again", "fresh", "cached"]


def run_info(files, out, c, id):
    """c: sections, byte order and address size"""
    secs = {".debug_info": bytes(c["info"]), ".debug_abbrev": bytes(c["ab"])}
    if c["str"]:
        secs[".debug_str"] = bytes(c["str"])
    if c["lstr"]:
        secs[".debug_line_str"] = bytes(c["lstr"])
    proc, ep, d = files.open(elf(secs, c["big"], c["w"]))
    units, mp, x = [], [], ""
    how = c.get("how") or HOW[id % len(HOW)]
    try:
        units, mp = information(proc)
        if how == "again":
            units, mp = information(proc)
        elif how != "fresh":
            ep.db.close()
            proc, ep, _ = files.open(None, d)
            units, mp = information(proc)
    except Exception as e:
        x = f"{type(e).__name__}: {e}"[:200]
    files.close(ep, d)
    out.put(dict(id=id, k="info", info=list(c["info"]), ab=list(c["ab"]), str=list(c["str"]), lstr=list(c["lstr"]), big=c["big"], w=c["w"], how=how, x=x, units=units, map=mp))


# --------------------------------------------------------------- encodings
def uleb(n):
    out = []
    while True:
        out.append(n & 127 | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return bytes(out)


def sleb(n):
    out = []
    while True:
        b = n & 127
        n >>= 7
        if (n == 0 and not b & 64) or (n == -1 and b & 64):
            return bytes([*out, b])
        out.append(b | 128)


def number(r, top=90):
    return r.choice([0, 1, 63, 64, 127, 128, 255, 8191, 8192, 16383, 16384, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 70, r.getrandbits(r.randrange(1, top)), r.getrandbits(7), r.getrandbits(14)])


def enc_cases(r, out, n):
    from construct import Int8sl, Int8ul, Int16sb, Int16sl, Int16ub, Int16ul, Int32sb, Int32sl, Int32ub, Int32ul, Int64sb, Int64sl, Int64ub, Int64ul  # noqa: F401
    from objutils.dwarf import encoding as E

    names = ["größe", "main.c", "x", "", "a b", "/usr/include", "é"]
    for k in range(n):
        op = r.choice(["uleb", "sleb", "uleb", "sleb", "address", "block1", "block2", "block4", "block", "string", "strp", "strings", "files"])
        big, w, tab = r.random() < 0.5, r.choice([1, 2, 4, 8]), b""
        end = E.Endianess.Big if big else E.Endianess.Little
        if op in ("uleb", "sleb") and r.random() < 0.5:
            v = number(r, 200) * r.choice([1, -1])
            x, e = "", b""
            try:
                e = {"uleb": E.ULEB, "sleb": E.SLEB}[op].build(v)
            except Exception as ex:
                x = type(ex).__name__
            out.put(dict(id=k, k="build", op=op, v=num(v), e=list(e), x=x, w=0, big=False))
            continue
        if op == "address" and r.random() < 0.3:
            if w == 1:
                big, end = False, E.Endianess.Little
            v = r.getrandbits(8 * w)
            x, e = "", b""
            try:
                e = E.Address(w, end).build(v)
            except Exception as ex:
                x = type(ex).__name__
            out.put(dict(id=k, k="build", op=op, v=num(v), e=list(e), x=x, w=w, big=big))
            continue
        o = ">" if big else "<"
        if op == "uleb":
            c, d = E.ULEB, uleb(number(r, 200))
            if r.random() < 0.3:  # not the shortest encoding
                d = d[:-1] + bytes([d[-1] | 128]) + b"\x80" * r.randrange(3) + b"\0"
        elif op == "sleb":
            v = number(r, 200) * r.choice([1, -1])
            c, d = E.SLEB, sleb(v)
            if r.random() < 0.3:
                d = d[:-1] + bytes([d[-1] | 128]) + (b"\xff" if v < 0 else b"\x80") * r.randrange(3) + (b"\x7f" if v < 0 else b"\0")
        elif op == "address":
            c, d = E.Address(w, end), r.randbytes(w)
        elif op == "block1":
            b = r.randbytes(r.choice([0, 1, 5, 200, 255]))
            c, d = E.Block1, bytes([len(b)]) + b
        elif op == "block2":
            b = r.randbytes(r.choice([0, 1, 5, 255, 256, 300]) if r.random() < 0.95 else r.choice([32767, 32768, 33000, 65535]))
            c, d = E.Block2b if big else E.Block2l, struct.pack(o + "H", len(b)) + b
        elif op == "block4":
            b = r.randbytes(r.choice([0, 1, 5, 255, 256, 300]) if r.random() < 0.97 else r.choice([32768, 65536, 66000]))
            c, d = E.Block4b if big else E.Block4l, struct.pack(o + "I", len(b)) + b
        elif op == "block":
            b = r.randbytes(r.choice([0, 1, 5, 127, 128, 300]) if r.random() < 0.97 else r.choice([16383, 16384, 33000]))
            c, d = E.BlockUleb, uleb(len(b)) + b
        elif op == "string":
            from construct import CString

            c, d = CString(encoding="utf8"), r.choice(names).encode() + b"\0"
        elif op == "strp":
            words = [r.choice(names).encode() for _ in range(4)]
            tab = b"\0".join(words) + b"\0"
            if r.random() < 0.1:
                tab = tab[:-1]  # the last string is not terminated
            at = r.choice([0, len(words[0]) + 1, len(tab) - 1, len(words[0])] * 3 + [len(tab), len(tab) + 3, 0x80000000])
            c, d = E.StrP(tab, end), struct.pack(o + "I", at)
        elif op == "strings":
            c, d = E.ArrayOfCStrings(), b"".join(x.encode() + b"\0" for x in [r.choice(names[:3] + names[4:6]) for _ in range(r.randrange(4))]) + b"\0"
        else:
            fs = [(r.choice(["main.c", "x", "a b", "/y/z.h"]), number(r), r.randrange(1 << 31), number(r)) for _ in range(r.randrange(4))]
            c, d = E.FilenameSequence(), b"".join(nm.encode() + b"\0" + uleb(a) + uleb(t) + uleb(s) for nm, a, t, s in fs) + b"\0"
        cut = r.random() < 0.15
        if cut:
            d = d[: r.randrange(len(d))]
        elif r.random() < 0.7:
            d += r.randbytes(r.choice([1, 2, 9]))
        s = io.BytesIO(d)
        res, x = None, ""
        try:
            res = c.parse_stream(s)
        except Exception as ex:
            x = type(ex).__name__
        if x:
            rr = num(0)
        elif op == "strings":
            rr = [list(q.encode()) for q in res]
        elif op == "files":
            rr = [dict(name=list(res[i].name.encode()), dir=num(res[i].dir_index), time=num(calendar.timegm(time.strptime(res[i].last_modified))), len=num(res[i].length)) for i in range(1, len(res) + 1)]
        else:
            rr = value(res)
        out.put(dict(id=k, k="parse", op=op, d=list(d), w=w, big=big, tab=list(tab), r=rr, p=s.tell(), x=x))


# ------------------------------------------------------------- expressions
ARGS = {3: ["addr"], 8: ["u1"], 9: ["u1"], 10: ["u2"], 11: ["u2"], 12: ["u4"], 13: ["u4"], 14: ["u8"], 15: ["u8"], 16: ["uleb"], 17: ["sleb"], 21: ["u1"], 35: ["uleb"], 40: ["u2"], 47: ["u2"],
        144: ["uleb"], 145: ["sleb"], 146: ["uleb", "sleb"], 147: ["uleb"], 148: ["u1"], 149: ["u1"], 152: ["u2"], 153: ["u4"], 154: ["u4"], 157: ["uleb", "uleb"], 158: ["block"], 160: ["u4", "sleb"],
        161: ["uleb"], 162: ["uleb"], 163: ["block"], 164: ["uleb", "block1"], 165: ["uleb", "uleb"], 166: ["u1", "uleb"], 167: ["u1", "uleb"], 168: ["uleb"], 169: ["uleb"],
        242: ["u4", "sleb"], 243: ["block"], 244: ["uleb", "block1"], 245: ["uleb", "uleb"], 246: ["u1", "uleb"], 247: ["uleb"], 249: ["uleb"], 250: ["u4"], 251: ["uleb"], 252: ["uleb"]}
for _o in range(112, 144):
    ARGS[_o] = ["sleb"]
OPS = [3, 6, *range(8, 170), 240, *range(242, 248), *range(249, 253)]


def operation(r, big, w, op=None):
    op = op or r.choice([r.choice(OPS), r.choice([o for o in OPS if ARGS.get(o)])])
    d = bytes([op])
    for a in ARGS.get(op, []):
        if a in ("u1", "u2", "u4", "u8"):
            d += r.choice([r.randbytes(int(a[1])), b"\xff" * int(a[1]), b"\0" * int(a[1]), b"\x80" + b"\0" * (int(a[1]) - 1)])
        elif a == "addr":
            d += r.choice([r.randbytes(w), b"\xff" * w, bytes(w)])
        elif a == "uleb":
            d += uleb(number(r))
        elif a == "sleb":
            d += sleb(number(r) * r.choice([1, -1]))
        else:
            b = r.choice([b"", bytes([r.randrange(80, 112)]), r.randbytes(r.choice([1, 4, 8]))])
            d += (uleb(len(b)) if a == "block" else bytes([len(b)])) + b
    return d


def expression(r, big, w):
    return b"".join(operation(r, big, w) for _ in range(r.choice([0, 1, 1, 2, 3, 5])))


def expr_cases(r, out, n, files):
    procs = []
    for big in (False, True):
        for w in (4, 8):
            procs.append((*files.open(elf({".debug_info": b"\0"}, big, w)), big, w))
    todo = [(p, operation(r, p[3], p[4], o)) for p in procs for o in r.sample(OPS, 60)]
    r.shuffle(todo)
    for k in range(n + len(todo)):
        p, d = todo[k] if k < len(todo) else (lambda p: (p, expression(r, p[3], p[4])))(r.choice(procs))
        if r.random() < 0.12 and d:
            d = d[: r.randrange(len(d))]
        x, q = "", []
        try:
            with quiet():
                s = p[0].dwarf_expression(d)
            q = operations(s)
            if q is None:
                q = [dict(o="? " + s, a=[], b=[])]
        except Exception as e:
            x = type(e).__name__
        out.put(dict(id=k, k="expr", d=list(d), big=p[3], w=p[4], x=x, q=q))
    for p in procs:
        files.close(p[1], p[2])


# -------------------------------------------------------------- entries
TAGS = [n for n in range(1, 0x44) if n not in (6, 7, 9, 12, 14, 20, 62)] + [0x4109, 0x410A, 0x4FFF, 0x8765]
DATA = [11, 5, 6, 7, 13, 15, 33]
FORMS = {"num": DATA, "str": [8, 14, 31], "ref": [17, 18, 19, 20, 21], "addr": [1], "expr": [24, 10, 3, 4, 9], "block": [10, 3, 4, 9], "flag": [12, 25], "sec": [23, 6], "sig": [32], "raddr": [16]}
ATS = [(1, "ref"), (2, "expr"), (3, "str"), (3, "str"), (9, "num"), (11, "num"), (12, "num"), (13, "num"), (16, "sec"), (17, "addr"), (18, "num"), (18, "addr"), (19, "num"), (23, "num"), (27, "str"), (28, "num"), (28, "block"),
       (28, "str"), (32, "num"), (37, "str"), (39, "flag"), (47, "num"), (49, "ref"), (50, "num"), (54, "num"), (56, "num"), (56, "expr"), (57, "num"), (58, "num"), (59, "num"), (60, "flag"), (61, "block"), (62, "num"), (63, "flag"),
       (64, "expr"), (71, "ref"), (73, "ref"), (73, "raddr"), (76, "num"), (77, "expr"), (85, "sec"), (88, "num"), (89, "num"), (94, "num"), (101, "num"), (105, "sig"), (110, "str"), (66, "num"), (107, "num"), (136, "num"),
       (0x2111, "expr"), (0x2117, "flag"), (0x3FAA, "num"), (0x2ABC, "str"), (0x3F01, "flag"), (0x213A, "block")]
ENUMS = (9, 19, 23, 32, 50, 54, 62, 66, 76, 94, 101)


class Tree:
    def __init__(self, r):
        self.r = r
        self.big, self.w = r.random() < 0.5, r.choice([4, 8])
        self.o = ">" if self.big else "<"
        self.tab = {8: None, 14: b"\0", 31: b"\0"}
        self.ab, self.info = b"", b""
        self.tables = []

    def string(self, form):
        b = self.r.choice(["", "main", "größe", "a.c", "x" * 30, "int", "/home/u"]).encode() + b"\0"
        if form == 8:
            return b
        at = self.tab[form].find(b) if self.r.random() < 0.6 else -1
        if at < 0:
            at = len(self.tab[form])
            self.tab[form] += b
        return struct.pack(self.o + "I", at)

    def decls(self, ver, asize):
        r = self.r
        codes = r.sample([1, 2, 3, 4, 5, 6, 7, 8, 9, 100, 127, 128, 129, 300, 20000], r.choice([2, 4, 6]))
        out = {}
        for n, c in enumerate(codes):
            attrs = []
            for at, kind in [r.choice(ATS) for _ in range(r.choice([0, 1, 2, 3, 5]))] if n else [(37, "str"), (19, "num"), (3, "str")][: r.randrange(1, 4)]:
                f = r.choice(FORMS[kind])
                if f == 16 and ver == 2 and asize != 4:
                    f = 19
                if at in ENUMS and f not in (11, 5, 6, 15, 13, 33):
                    f = 11
                const = 0
                if f == 33:
                    const = r.choice([0, 1, 5, 63, 64, 127, 128, -1, -64, -65, 1000, -(1 << 31), (1 << 63) - 1])
                attrs.append((at, f, const))
            out[c] = (17 if n == 0 else r.choice(TAGS), n == 0 or r.random() < 0.5, attrs)
        return out, codes[0]

    def table(self, decls):
        t = b""
        for c, (tag, kids, attrs) in decls.items():
            t += uleb(c) + uleb(tag) + bytes([kids])
            for at, f, const in attrs:
                t += uleb(at) + uleb(f) + (sleb(const) if f == 33 else b"")
            t += b"\0\0"
        return t + b"\0"

    def value(self, at, f, asize, size):
        r, o = self.r, self.o
        enum = at in ENUMS and r.random() < 0.8
        small = r.randrange(0, 18) if at in (19, 62) else r.randrange(0, 6)
        if f == 1:
            return r.choice([r.randbytes(asize), bytes(asize), b"\xff" * asize])
        if f in (8, 14, 31):
            return self.string(f)
        if f in (11, 5, 6, 7):
            n = {11: 1, 5: 2, 6: 4, 7: 8}[f]
            return struct.pack(o + {1: "B", 2: "H", 4: "I", 8: "Q"}[n], small) if enum else r.choice([r.randbytes(n), bytes(n), b"\xff" * n])
        if f == 13:
            return sleb(small) if enum else sleb(number(r, 64) * r.choice([1, -1]))
        if f == 15:
            return uleb(small) if enum else uleb(number(r))
        if f == 12:
            return bytes([r.choice([0, 1, 1, 255])])
        if f == 32:
            return r.randbytes(8)
        if f in (17, 18, 19, 20, 23, 16, 6):
            n = {17: 1, 18: 2, 19: 4, 20: 8, 23: 4, 16: 4}[f]
            return struct.pack(o + {1: "B", 2: "H", 4: "I", 8: "Q"}[n], r.choice([r.randrange(250), r.randrange(250), r.getrandbits(8 * n), (1 << 8 * n) - 1, 1 << 8 * n - 1]))
        if f == 21:
            return uleb(r.choice([r.randrange(400), number(r)]))
        if f in (24, 10, 3, 4, 9):
            b = expression(r, self.big, asize) if at in (2, 56, 64, 77, 0x2111) else r.randbytes(r.choice([0, 1, 4, 20]))
            if f == 10:
                b = b if len(b) < 256 else b""
                return bytes([len(b)]) + b
            return (uleb(len(b)) if f in (24, 9) else struct.pack(o + ("H" if f == 3 else "I"), len(b))) + b
        return b""

    def unit(self):
        r = self.r
        ver = r.choice([2, 3, 4, 4, 5, 5])
        asize = r.choice([self.w, self.w, self.w, 2, 4, 8, 1])
        if self.tables and r.random() < 0.3:
            off, decls, first = r.choice(self.tables)
        else:
            decls, first = self.decls(ver, asize)
            off = len(self.ab)
            self.ab += self.table(decls)
            self.tables.append((off, decls, first))
        if any(f == 16 for d in decls.values() for _, f, _ in d[2]) and ver == 2:
            ver = 3
        # a tree: the root and further entries
        body, open_, n = b"", 0, r.choice([0, 1, 3, 6, 12, 25])

        def entry(c):
            nonlocal body, open_
            body += uleb(c)
            for at, f, _ in decls[c][2]:
                body += self.value(at, f, asize, 1000)
            open_ += decls[c][1]

        entry(first)
        while n and open_:
            if r.random() < 0.3 and open_ > 1:
                body += b"\0"
                open_ -= 1
            else:
                entry(r.choice(list(decls)))
                n -= 1
        closing = r.choice([open_, open_, open_, open_ + 1, 0, max(0, open_ - 1)])
        body += bytes(closing)
        off4 = struct.pack(self.o + "I", off)
        hdr = struct.pack(self.o + "H", ver) + (bytes([r.choice([1, 3]), asize]) + off4 if ver == 5 else off4 + bytes([asize]))
        self.info += struct.pack(self.o + "I", len(hdr + body)) + hdr + body

    def make(self):
        for _ in range(self.r.choice([1, 1, 2, 3])):
            self.unit()
        return dict(info=self.info, ab=self.ab, str=self.tab[14], lstr=self.tab[31], big=self.big, w=self.w)


# ------------------------------------------------------- compiled programs
def cc_cases(args, out, files):
    for k, job, data in compiled.files(args, (2, 3, 4, 5)):
        proc, ep, dd = files.open(data)
        secs = {n: bytes(s.image or b"") for n, s in proc.debug_sections.items()}
        units, mp, x = [], [], ""
        if ".debug_info" not in secs:
            files.close(ep, dd)
            continue
        try:
            units, mp = information(proc)
        except Exception as ex:
            x = f"{type(ex).__name__}: {ex}"[:200]
        files.close(ep, dd)
        out.put(dict(id=f"cc{k} {' '.join(map(str, job))}", k="info", info=list(secs[".debug_info"]), ab=list(secs[".debug_abbrev"]), str=list(secs.get(".debug_str", b"")), lstr=list(secs.get(".debug_line_str", b"")), big=data[5] == 2, w=8 if data[4] == 2 else 4, x=x, units=units, map=mp))


def main():
    p = parser()
    p.add_argument("--scenarios", default="")
    a = p.parse_args()
    out = Out(a.out)
    files = Files()
    try:
        if a.scenarios:
            with open(a.scenarios) as f:
                for i, line in enumerate(f):
                    if i % a.shards == a.shard:
                        run_info(files, out, json.loads(line), i)
        else:
            r = rng(a)
            if a.focus == "enc":
                enc_cases(r, out, a.n)
            elif a.focus == "expr":
                expr_cases(r, out, a.n, files)
            elif a.focus == "info":
                for k in range(a.n):
                    run_info(files, out, Tree(r).make(), k)
            elif a.focus == "cc":
                cc_cases(a, out, files)
    finally:
        files.done()
        out.close()


if __name__ == "__main__":
    main()
