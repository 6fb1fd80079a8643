"""Random ELF files."""
import struct

NAMES = [".text", ".data", ".rodata", ".bss", ".init", ".text.main", ".vectors", ".flash", "CODE", "_a", "data", ".tdata", ".dynamic", ".ARM.exidx", ".data_1", ".Text", ".DATA", "code", "x" * 20]
TYPES = [4, 5, 6, 9, 10, 14, 15, 16, 17, 18, 19, 0x60000001, 0x6FFFFFF5, 0x6FFFFFF6, 0x6FFFFFF7, 0x6FFFFFFD, 0x6FFFFFFE, 0x6FFFFFFF, 0x70000001, 0x70000002, 0x70000004, 0x80000000]
DEBUG = [".debug_info", ".debug_str", ".debug_abbrev", ".debug", ".dwo", ".debug_line"]
SYMS = ["main", "_start", "_end", "__bss_start", "foo", "foo.1", "f", "counter", "Table", "table", "_edata", "a_very_long_symbol_name", "größe", "printf", "x1", "x10", "x2", "", "$t", ".Lc"]
NOTES = ["GNU", "NetBSD", "Go", "stapsdt", "CORE", "", "A", "XenX", "Linux"]


def uleb(n):
    out = []
    while True:
        out.append(n & 127 | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return bytes(out)


class Build:
    def __init__(self, r, cls=None, data=None, full=False, pad=0):
        self.pad = pad
        self.r = r
        self.cls = cls or r.choice([1, 2])
        self.data = data or r.choice([1, 2])
        self.e = "<" if self.data == 1 else ">"
        self.full = full
        self.where = {}

    def word(self, w=4):
        r, top = self.r, 8 * w
        return r.choice([0, 1, 2, 0x10, 0x7F, 0x80, 0xFFFF, (1 << (top - 1)) - 1, 1 << (top - 1), (1 << top) - 1, r.getrandbits(top), r.getrandbits(16), 0x8000])

    def addr(self):
        return self.word(4 if self.cls == 1 else 8)

    def note(self):
        r, out = self.r, b""
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            n = r.choice(NOTES)
            name = n.encode() + b"\0" if n or r.random() < 0.5 else b""
            if name and r.random() < 0.2:  # some tools count the padding
                name += b"\0" * (-len(name) % 4)
            desc = r.randbytes(r.choice([0, 4, 16, 20, 1, 7]))
            out += struct.pack(self.e + "III", len(name), len(desc), r.choice([0, 1, 3, 5, 0x100, 0xFFFFFFFF])) + name + b"\0" * (-len(name) % 4) + desc
            last = -len(desc) % 4
            out += b"\0" * last
        if last and r.random() < 0.5:
            out = out[:-last]
        return out

    def comment(self):
        r = self.r
        parts = [r.choice(["GCC: (GNU) 13.2", "clang", "x", "IAR", ""]) for _ in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.15:
            return (parts[0] or "raw").encode()
        return b"".join(p.encode() + b"\0" for p in parts)

    def arm(self):
        r, out = self.r, b"A"
        for v in r.sample(["aeabi", "gnu", "ARM", "x"], r.choice([1, 1, 2])) + (["aeabi"] if r.random() < 0.1 else []):
            attrs = b""
            for _ in range(r.choice([0, 1, 3, 8])):
                if r.random() < 0.06:
                    attrs += uleb(32) + uleb(r.choice([0, 0, 1, 200])) + r.choice([b"", b"gnu", b"ARM"]) + b"\0"
                    continue
                t = r.choice([4, 5, 65, 67, 6, 7, 8, 9, 10, 12, 18, 20, 23, 26, 28, 34, 42, 44, 68, 70, 46, 48, 71, 75, 128, 301])
                known_num = t in range(6, 32) or t in (34, 36, 38, 42, 44, 64, 66, 68, 70)
                if t in (4, 5, 65, 67) or (not known_num and t & 1):
                    attrs += uleb(t) + r.choice([b"6S-M", b"", b"cortex-m4", b"7-A"]) + b"\0"
                else:
                    attrs += uleb(t) + uleb(r.choice([0, 1, 2, 3, 4, 0x41, 0x4D, 17, 21, 127, 128, 300, 1 << 20]))
            body = v.encode() + b"\0" + b"\x01" + struct.pack(self.e + "I", len(attrs) + 5) + attrs
            out += struct.pack(self.e + "I", len(body) + 4) + body
        return out

    def strings(self, names):
        """-> table, offsets; shares tails now and then"""
        tab, offs = b"\0", {"": 0}
        for n in names:
            b = n.encode()
            if n in offs:
                continue
            k = tab.find(b + b"\0")
            if k >= 0 and self.r.random() < 0.5:
                offs[n] = k
                continue
            offs[n] = len(tab)
            tab += b + b"\0"
        return tab, offs

    def symbols(self, nsec, n, names):
        r = self.r
        syms = [("", 0, 0, 0, 0, 0, 0)] if r.random() < 0.8 else []
        for _ in range(n):
            syms.append((r.choice(names), self.addr(), self.addr(), r.choice([0, 1, 1, 2, 10, 13]), r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 10]),
                         r.choice([0, 0, 1, 2, 3, 0x80, 0x82, 0x61]), r.choice([0, 0xFFF1, 0xFFF1, 0xFFF2, nsec + 3, 0xFEFF, *([r.randrange(1, nsec)] * 8 if nsec > 1 else [])])))
        tab, offs = self.strings([s[0] for s in syms])
        if r.random() < 0.05 and not any(s[0] for s in syms):
            tab = b""
        out = b""
        for nm, v, sz, b, t, o, sh in syms:
            if self.cls == 2:
                out += struct.pack(self.e + "IBBHQQ", offs[nm], b << 4 | t, o, sh, v, sz)
            else:
                out += struct.pack(self.e + "IIIBBH", offs[nm], v, sz, b << 4 | t, o, sh)
        return out, tab

    def make(self):
        r = self.r
        wide = self.cls == 2
        S = [dict(name="", type=0, flags=0, addr=0, content=b"", size=None)]
        top = 1 << (64 if wide else 32)
        at = r.choice([0, 0x1000, 0x08000000, 0x7FFFFFF0, 0x80000000, top - 0x1000, (1 << 63) - 8 if wide else 0x20000000, 0xFFFFFF80 if wide else 0x100])
        mode = r.choice(["spread", "spread", "adjacent", "mixed", "mixed", "zero" if r.random() < 0.3 else "mixed"])
        kinds = [r.choice(["text", "data", "bss", "rodata", "dbg", "note", "comment", "arm", "empty", "tls", "odd", "text", "data"]) for _ in range(r.randrange(0, 8))]
        if self.full:
            kinds += ["text", "note", "comment", "arm"]
        r.shuffle(kinds)
        secs = []
        for k in kinds:
            d = r.randbytes(r.choice([1, 2, 4, 7, 16, 24]))
            s = dict(name=r.choice(NAMES), type=1, flags=2, addr=0, content=d, size=None)
            if k == "text":
                s.update(flags=6)
            elif k == "data":
                s.update(flags=3)
            elif k == "rodata":
                s.update(flags=r.choice([2, 0x12, 0x32]))
            elif k == "bss":
                s.update(type=8, flags=3, content=b"", size=r.choice([0, 4, 100, 0x10000]))
            elif k == "tls":
                s.update(type=r.choice([1, 8]), flags=0x403)
                if s["type"] == 8:
                    s.update(content=b"", size=8)
            elif k == "dbg":
                s.update(name=r.choice(DEBUG), flags=r.choice([0, 0, 0x800, 2]))
            elif k == "note":
                s.update(name=r.choice([".note.gnu.build-id", ".note.ABI-tag", ".note.x"]), type=7, flags=r.choice([2, 0]), content=self.note() if r.random() < 0.9 else b"")
            elif k == "comment":
                s.update(name=".comment", flags=0x30, content=self.comment())
            elif k == "arm":
                if any(x["name"] == ".ARM.attributes" for x in secs):
                    continue
                s.update(name=".ARM.attributes", type=0x70000003, flags=0, content=self.arm())
            elif k == "empty":
                s.update(content=b"")
            elif k == "odd":
                s.update(type=r.choice(TYPES), flags=r.choice([2, 0x42, 0x82, 0x102, 0x202, 0x80000002, 0x40000000, 4, 1]))
            if s["flags"] & 2 or r.random() < 0.2:
                n = len(s["content"]) or 0
                if mode == "zero":
                    s["addr"] = 0
                else:
                    s["addr"] = at % top
                    if r.random() < 0.06:
                        s["addr"] = max(0, s["addr"] - 3)
                    at = min(at + n + (0 if mode == "adjacent" or (mode == "mixed" and r.random() < 0.5) else r.choice([1, 3, 16, 0x100, 0x12345])), top - 0x800)
            secs.append(s)
        r.shuffle(secs)
        S += secs
        tabs = []
        for ty, nm, stn in ((2, ".symtab", ".strtab"), (11, ".dynsym", ".dynstr")):
            if self.full or r.random() < (0.85 if ty == 2 else 0.35):
                tabs.append((ty, nm, stn))
        if r.random() < 0.3:
            tabs.reverse()
        pend = []
        for ty, nm, stn in tabs:
            a = dict(name=nm, type=ty, flags=2 if ty == 11 and r.random() < 0.2 else 0, addr=0, content=b"", size=None)
            b = dict(name=stn, type=3, flags=0, addr=0, content=b"", size=None)
            pair = [a, b]
            r.shuffle(pair)
            for x in pair:
                S.insert(r.randrange(1, len(S) + 1), x)
            pend.append((a, b))
        shstr = dict(name=".shstrtab", type=3, flags=0, addr=0, content=b"", size=None)
        S.insert(r.randrange(1, len(S) + 1), shstr)
        for s in S:
            s.update(link=0 if r.random() < 0.7 else self.word(), info=0 if r.random() < 0.5 else self.word(), align=r.choice([0, 1, 4, 16, 0x1000]), ent=r.choice([0, 0, 4, self.addr()]))
        for a, b in pend:
            names = [r.choice(SYMS) for _ in range(6)]
            a["content"], b["content"] = self.symbols(len(S), 0 if r.random() < 0.05 else r.randrange(1, 9), names)
            if self.full:
                a["content"], b["content"] = self.symbols(len(S), r.randrange(2, 6), names)
            a["link"] = next(i for i, x in enumerate(S) if x is b)
            a["ent"] = 24 if wide else 16
        shstr["content"], offs = self.strings([s["name"] for s in S])
        if shstr["addr"] == 0:
            pass
        # segments
        segs = [(r.choice([0, 1, 1, 2, 4, 6, 7, 0x6474E551, 0x70000001]), r.randrange(8), *[self.addr() for _ in range(6)]) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        eh = 64 if wide else 52
        shs, phs = (64, 56) if wide else (40, 32)
        # layout: blocks in random order, gaps in between
        blocks = [("s", i) for i, s in enumerate(S) if s["content"]] + [("sh", 0), ("ph", 0)]
        r.shuffle(blocks)
        pos, place = eh, {}
        split = r.randrange(len(blocks)) if self.pad else -1
        hole = None
        for n, b in enumerate(blocks):
            if n == split:
                hole = (pos, pos + self.pad)
                pos = hole[1]
            pos += r.choice([0, 0, 1, 3, 8])
            place[b] = pos
            pos += len(S[b[1]]["content"]) if b[0] == "s" else len(S) * shs if b[0] == "sh" else len(segs) * phs
        out = bytearray(r.randbytes(1) * (pos + r.choice([0, 0, 5])))
        if hole:
            out[hole[0] : hole[1]] = bytes(self.pad)
        shoff = place[("sh", 0)]
        phoff = place[("ph", 0)] if segs or r.random() < 0.3 else 0
        fmt = "HHIQQQIHHHHHH" if wide else "HHIIIIIHHHHHH"
        hdr = struct.pack(self.e + fmt, r.choice([0, 1, 2, 3, 4, 0xFE00, 0xFFFF]), r.choice([0, 3, 8, 20, 40, 40, 62, 83, 183, 243, 0xFEED]), r.choice([1, 1, 0, 0xFFFFFFFF]), self.addr(), phoff, shoff,
                          r.choice([0, 0x5000400, 0x85, r.getrandbits(32), 0xFFFFFFFF]), eh, phs, len(segs), shs, len(S), next(i for i, x in enumerate(S) if x is shstr))
        ident = b"\x7fELF" + bytes([self.cls, self.data, 1, r.choice([0, 0, 3, 9, 97, 255]), r.choice([0, 1, 7])]) + bytes(7)
        out[:eh] = ident + hdr
        for i, s in enumerate(S):
            off = place.get(("s", i), r.choice([0, 64, pos]))
            size = len(s["content"]) if s["size"] is None else s["size"]
            self.where[i] = (off, size)
            if s["content"]:
                out[off : off + size] = s["content"]
            if wide:
                h = struct.pack(self.e + "IIQQQQIIQQ", offs[s["name"]], s["type"], s["flags"], s["addr"], off, size, s["link"], s["info"], s["align"], s["ent"])
            else:
                h = struct.pack(self.e + "IIIIIIIIII", offs[s["name"]], s["type"], s["flags"], s["addr"], off, size, s["link"], s["info"], s["align"], s["ent"] & 0xFFFFFFFF)
            out[shoff + i * shs : shoff + (i + 1) * shs] = h
        r2 = self.r
        for i in range(len(segs)):
            # most segments span one or two sections, more or less
            if r2.random() < 0.7 and len(S) > 1:
                q = sorted(r2.sample(range(1, len(S)), min(len(S) - 1, r2.choice([1, 1, 2]))), key=lambda k: S[k]["addr"])
                place0 = [self.where[k] for k in q]
                o = max(0, min(x[0] for x in place0) + r2.choice([0, 0, 0, -1, 1]))
                va = min(top - 1, max(0, S[q[0]]["addr"] + r2.choice([0, 0, 0, -1, 1, -4])))
                n = max(0, max(x[0] + x[1] for x in place0) - o + r2.choice([0, 0, 0, 0, -1, 1, 1 << 20]))
                ms = min(top - 1, max(0, S[q[-1]]["addr"] + place0[-1][1] - va + r2.choice([0, 0, 0, 0, -1, 1])))
                segs[i] = (r2.choice([1, 1, 1, 1, 2, 2, 2, 3, 5, 6, 7, 0x6474E550, 0x6474E551, 0x6474E552, 0x6474E553, 4, 8, 0x60000001]), segs[i][1], o, va, segs[i][4], n, ms, segs[i][7])
        for i, (ty, fl, of, va, pa, fs, ms, al) in enumerate(segs):
            if wide:
                h = struct.pack(self.e + "IIQQQQQQ", ty, fl, of, va, pa, fs, ms, al)
            else:
                h = struct.pack(self.e + "IIIIIIII", ty, of, va, pa, fs, ms, fl, al)
            out[phoff + i * phs : phoff + (i + 1) * phs] = h
        return bytes(out)
