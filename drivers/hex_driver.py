"""Files written and read by the codecs, recorded for HexTrace.tla; with --replay the
files spelled out by TLC from HexMC.tla are loaded and compared with the image the
specification assigns to them."""
import io
import json
import os
import tempfile
import xml.etree.ElementTree as ET
from hashlib import sha1

from common import Out, parser, rng

import objutils
from objutils import Image, Section
from objutils.hexfile import MetaRecord

BITS = {"ihex": 32, "srec": 32, "etek": 20, "shf": 46, "bin": 46}
CHECKED = ["ihex", "srec", "sig", "tek", "mostec", "emon52", "etek", "fpc"]
PLAIN = ["cosmac", "rca", "titxt", "ash", "shf", "bin"]
ALL = CHECKED + PLAIN
MAXROW = {"ihex": 255, "srec": 250, "sig": 255, "tek": 255, "mostec": 255, "emon52": 255, "etek": 122, "fpc": 251}


def bits(fmt):
    return BITS.get(fmt, 16)


def pair(n):
    return [n >> 16, n & 0xFFFF]


def unpair(p):
    return p[0] << 16 | p[1]


def secs(img):
    return [{"a": pair(s.start_address), "d": list(bytes(s.data))} for s in img.sections]


def lines_of(data):
    ls = bytes(data).split(b"\n")
    return [list(x) for x in (ls[:-1] if ls[-1] == b"" else ls)]


def heads(img):
    m = getattr(img, "meta", None) or {}
    return [{"a": pair(r.address), "d": list(r.chunk)} for r in m.get(1, [])]


def blocks_of(data):
    """SHF: the XML is taken apart here, TLC judges addresses, lengths and bytes"""
    root = ET.fromstring(bytes(data))
    res = []
    for b in root:
        t = "".join((b.text or "").split())
        try:
            raw = bytes.fromhex(t)
        except ValueError:
            raw = b""
        g = lambda k: int("".join(b.attrib.get(k, "0").split()), 16)  # noqa: E731
        has = [k for k in ("name", "address", "length", "word_size", "checksum") if k in b.attrib]
        res.append({"a": pair(g("address")), "len": g("length"), "ws": g("word_size"), "t": [ord(c) for c in t], "sha": sha1(raw).hexdigest() == "".join(b.attrib.get("checksum", "").split()), "has": has})
    return res, int(root.attrib.get("blocks", "0"), 16)


class Gen:
    def __init__(self, args, i, fmt):
        self.r = rng(args, f"{i}/{fmt}")
        self.fmt = fmt
        self.args = args

    # ---------------------------------------------------------------- images
    def data(self, n):
        r = self.r
        m = r.randrange(7)
        if m == 3:
            return bytes([r.randrange(256)]) * n
        if m == 0:
            return bytes([r.choice([0, 255, 13, 10])]) * n
        if m == 1:
            return bytes((i * 7 + 1) % 256 for i in range(n))
        if m == 2 and n > 2:  # zeros at the end: padding must not be confused with data
            return r.randbytes(n // 2) + bytes(n - n // 2)
        return r.randbytes(n)

    def anchors(self):
        b = bits(self.fmt)
        top = 1 << b
        a = [0, 1, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xFFF0, 0xFF00, 0xFFFE]
        if b > 16:
            a += [0x10000 - 5, 0x10000, 0x1FFF8, 0x20000, 0xFFFF0, 0xFFFF8, 0x9FFFC]
        if b > 20:
            a += [0x100000, 0x10FFF0, 0xFFFFFF - 7, 0x1000000, 0x12345678, 0x7FFFFFF0, 0x80000000, 0xFFFEFFFC, 0xFFFFFF00]
        if b > 32:
            a += [0x100000000 - 8, 0x100000000, 0x123456789A, (1 << 45)]
        a = [x for x in a if x < top] + [top - 16, top - 1, top - 100]
        # addresses made of conspicuous digits
        for _ in range(len(a) // 2):
            a.append(int("".join(self.r.choice("0000001789AF") for _ in range(b // 4)), 16))
        return a

    def image(self, maxlen=90, over=0.0):
        """sections [(address, bytes)], disjoint"""
        r = self.r
        top = 1 << bits(self.fmt)
        if self.args.focus == "big":
            return self.large(top)
        if self.fmt == "srec" and r.random() < 0.06:  # more records than a byte could count
            a = r.choice([0, 0x100, 0x10000 - 300, 0x10000, 0x123456, 0xFFFFFE00])
            return [(a, self.data(r.choice([256, 257, 300])))]
        want = r.choice([1, 1, 1, 2, 2, 3, 5])
        used = []
        small = self.fmt == "bin"
        base = r.choice(self.anchors())
        long = r.random() < (0.5 if self.fmt in ("shf", "bin") else 0.12)
        for _ in range(want):
            n = r.randrange(1, 700) if long and r.random() < 0.6 else r.choice([1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 20, 31, 32, 33, 48, 64, maxlen, maxlen])
            m = r.random()
            if used and m < 0.35:  # adjacent to or close behind the previous one
                a = used[-1][0] + used[-1][1] + r.choice([0, 0, 1, 2, 16, 100])
            elif used and (m < 0.55 or small):
                a = base + r.randrange(0, 3000)
            else:
                a = r.choice(self.anchors()) if not small else base + r.randrange(200)
                a = max(0, a - r.choice([0, 0, 1, n // 2, n]))
            if a + n > top and r.random() >= over:
                a = top - n
            if a < 0 or any(a < e + l and e < a + n for e, l in used):
                continue
            used.append((a, n))
        if not used:
            used = [(base if base + 4 <= top else top - 4, 4)]
        return [(a, self.data(n)) for a, n in sorted(used)]

    def large(self, top):
        """many sections, or long ones that cross pages"""
        r = self.r
        if r.random() < 0.5:
            n, used, a = r.choice([40, 130, 260]), [], r.choice([0, 0xFF, 0x8000])
            if top > 0x10000:
                a = r.choice([0, 0xFF00, 0x1FFF0])
            for _ in range(n):
                d = self.data(r.choice([1, 1, 2, 3, 5]))
                if a + len(d) > top:
                    break
                used.append((a, d))
                a += len(d) + r.choice([0, 1, 1, 2, 30])
            return used
        n = r.choice([66000, 70000]) if self.fmt == "ihex" and self.args.shard == 0 else r.choice([4200, 9000])
        a = r.choice([0, 1, 0x7F, top - n, r.randrange(top - n)] + ([0xFFF0, 0xFF80] if top > 0x40000 else []))
        return [(a, r.randbytes(n))]

    def mk(self, ss):
        """an Image, made in different ways"""
        r = self.r
        m = r.randrange(4)
        if m == 0:
            img = Image()
            for a, d in r.sample(ss, len(ss)):
                img.insert_section(d, a, join=r.random() < 0.5)
            return img
        return Image([Section(a, d) for a, d in ss], join=m != 1)

    # --------------------------------------------------------------- writing
    def opts(self, ss, focus):
        r = self.r
        kw = {}
        row = 16
        if self.fmt in ("shf", "bin"):
            o = {"row": 16, "ty": 0, "s5": False, "start": [], "fill": 255}
            if self.fmt == "bin" and r.random() < 0.6:
                o["fill"] = r.randrange(256)
                kw["filler"] = bytes([o["fill"]]) if r.random() < 0.5 else o["fill"]
            return kw, o
        if focus == "big" and len(ss[0][1]) > 255:
            row = kw["row_length"] = min(r.choice([100, 250, 255]), MAXROW.get(self.fmt, 255))
        elif r.random() < 0.75:
            row = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 60, 63, 64, 100, 120, 122, 123, 128, 200, 248, 250, 251, 252, 253, 254, 255, 256, 300]) if focus != "limits" else r.choice([122, 123, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 400])
            kw["row_length"] = row
        if focus != "big" and self.fmt == "srec" and len(ss) == 1 and len(ss[0][1]) > 255 and r.random() < 0.8:
            row = kw["row_length"] = 1
        o = {"row": row, "ty": 0, "s5": False, "start": []}
        if self.fmt == "srec":
            last = ss[-1][0] + len(ss[-1][1]) - 1
            auto = 1 if last < 1 << 16 else 2 if last < 1 << 24 else 3
            if r.random() < 0.4:
                o["ty"] = kw["record_type"] = r.choice([1, 2, 3])
            ty = o["ty"] or auto
            if r.random() < 0.4:
                o["s5"] = kw["s5record"] = True
            if r.random() < 0.5:
                s = r.choice([0, 1, 0x10, 0xFFFF, 0x1234, r.getrandbits(8 * (ty + 1)), r.getrandbits(8 * (ty + 1))])
                kw["start_address"] = s
                o["start"] = pair(s)
        return kw, o

    def many_case(self):
        """as many records as a count of 16 bits does not take: the records are counted here, the S5 record and the rest by the specification"""
        r = self.r
        n, a = r.choice([(65535, 0), (65536, 0), (65536, 0), (65537, 0x10000), (65540, 0x1000000), (65536, 0x20000)]) if self.args.shard else (65536, 0)
        img = Image([Section(a, r.randbytes(n))])
        e = {"kind": "many", "fmt": "srec", "rows": pair(n), "count": [], "others": 0, "same": False, "x": ""}
        try:
            txt = bytes(objutils.dumps("srec", img, row_length=1, s5record=True))
            ls = txt.split()
            e["count"] = [list(x) for x in ls if x[:2] == b"S5"][:3]
            e["rows"], e["others"] = pair(sum(x[:2] in (b"S1", b"S2", b"S3") for x in ls)), sum(x[:2] not in (b"S1", b"S2", b"S3", b"S5") for x in ls)
            e["same"] = objutils.loads("srec", txt) == img
        except Exception as x:
            e["x"] = type(x).__name__
        return e

    def dumps(self, img, kw, how=None):
        """through any of the public entry points"""
        r = self.r
        how = how or r.choice(["dumps", "dumps", "dumps", "file", "fp", "writer"])
        if how == "file":
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "x")
                objutils.dump(self.fmt, p, img, **kw)
                with open(p, "rb") as f:
                    return f.read()
        if how == "fp":
            class Keep(io.BytesIO):
                def close(self):
                    self.kept = self.getvalue()
                    super().close()
            f = Keep()
            objutils.dump(self.fmt, f, img, **kw)
            return f.kept if f.closed else f.getvalue()
        if how == "writer":
            return objutils.registry.get(self.fmt).Writer().dumps(img, **kw)
        return objutils.dumps(self.fmt, img, **kw)

    def write_case(self, focus="write", writer=None):
        r = self.r
        ss = self.image(maxlen=400 if focus == "limits" or (self.args.tier == "thorough" and r.random() < 0.2) else 90, over=0.5 if focus == "limits" else 0.0)
        if focus == "limits" and self.fmt != "bin" and r.random() < 0.4:
            # exactly at or just over the last address
            n = r.choice([1, 2, 16])
            top = 1 << bits(self.fmt)
            a = top - n + r.choice([0, 0, 1, -1, n])
            ss = [(a, self.data(n))] if r.random() < 0.5 or a < 200 else [(r.randrange(0, 100), self.data(3)), (a, self.data(n))]
        img = self.mk(ss)
        kw, o = self.opts(ss, focus)
        o["lens"] = [len(x) for x in img.sections]
        bad = False
        if focus == "write" and self.fmt not in ("shf", "bin") and len(ss) == 1 and r.random() < 0.15:
            img = Section(*ss[0])  # writers take sections, too
        elif focus == "write" and r.random() < 0.04:
            ss, img, o["lens"] = [], Image(), []
        if focus == "limits" and r.random() < 0.15 and self.fmt not in ("shf", "bin"):
            kw[r.choice(["rowlength", "foo", "bytes_per_row", "record"])] = 1
            bad = True
        if focus == "limits" and self.fmt == "bin" and r.random() < 0.5:
            kw["filler"] = r.choice([-1, 256, 300, -256, 1 << 31, b"", b"ab", b"\0\0", "x", "", None, 1.0, bytearray(b"\xff"), [255]])
            bad = True
        head, entry = [], []
        if self.fmt == "srec" and ss and not isinstance(img, Section) and r.random() < 0.5 and focus in ("srec", "write"):
            last = ss[-1][0] + len(ss[-1][1]) - 1
            ty = o["ty"] or (1 if last < 1 << 16 else 2 if last < 1 << 24 else 3)
            meta = {}
            if r.random() < 0.7:
                hs = [(r.choice([0, 0, 0x1234]), bytearray(r.choice([b"HDR", b"a longer header \x00\xff", b"x"]))) for _ in range(r.choice([1, 1, 2]))]
                meta[1] = [MetaRecord(1, a, c) for a, c in hs]
                head = [{"a": pair(a), "d": list(c)} for a, c in hs]
            if r.random() < 0.5:
                e = r.getrandbits(8 * (ty + 1))
                k = {1: 8, 2: 7, 3: 6}[ty]
                meta[k] = [MetaRecord(k, e, None)]
                entry = pair(e)
            img.meta = meta
        e = {"kind": "write", "fmt": self.fmt, "img": [{"a": pair(a), "d": list(d)} for a, d in ss], "opts": o, "head": head, "entry": entry, "badopt": bad, "x": "", "lines": []}
        txt = b""
        try:
            txt = bytes(writer.dumps(img, **kw) if writer else self.dumps(img, kw))
            if not ss:
                e["bytes"] = list(txt)
            elif self.fmt == "bin":
                e["bytes"] = list(txt)
            elif self.fmt == "shf":
                e["blocks"], e["count"] = blocks_of(txt)
            else:
                e["lines"] = lines_of(txt)
        except Exception as x:
            e["x"] = type(x).__name__
        return e, txt

    # --------------------------------------------------------------- reading
    def loads(self, txt, how=None, reader=None, kw={}):
        r = self.r
        how = how or r.choice(["loads", "loads", "str", "file", "fp", "bytearray"])
        if reader:
            return reader.loads(txt, **kw)
        if how == "str" and all(b < 128 for b in txt):
            return objutils.loads(self.fmt, txt.decode("ascii"), **kw)
        if how == "bytearray":
            return objutils.loads(self.fmt, bytearray(txt), **kw)
        if how == "file":
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "x")
                with open(p, "wb") as f:
                    f.write(txt)
                return objutils.load(self.fmt, p, **kw)
        if how == "fp":
            return objutils.load(self.fmt, io.BytesIO(txt), **kw)
        return objutils.loads(self.fmt, txt, **kw)

    def read_case(self, txt, reader=None, how=None):
        e = {"kind": "read", "fmt": self.fmt, "x": "", "img": [], "lines": [], "head": []}
        if self.fmt == "shf":
            e["blocks"] = blocks_of(txt)[0]
        elif self.fmt == "bin":
            at = self.r.choice([0, 0, 1, 0x100, 0xFFFF, 0x10000, 0x80000000, self.r.getrandbits(32)])
            e["bytes"], e["at"] = list(txt), pair(at)
        else:
            e["lines"] = lines_of(txt)
        try:
            img = self.loads(txt, reader=reader, how=how, kw={"address": at} if self.fmt == "bin" and at else {})
            e["img"] = secs(img)
            e["head"] = heads(img) if self.fmt == "srec" else []
        except Exception as x:
            e["x"] = type(x).__name__
        return e

    def chunks(self):
        """disjoint pieces of data, in any order, of any record size"""
        r = self.r
        lim = MAXROW.get(self.fmt, 60)
        ps = []
        for a, d in self.image(maxlen=120):
            i = 0
            while i < len(d):
                n = min(r.choice([1, 2, 3, 4, 8, 16, 16, 21, 32, 48, 100, lim]), lim)
                if self.fmt == "ihex":
                    n = min(n, 0x10000 - (a + i) % 0x10000)
                ps.append((a + i, d[i : i + n]))
                i += n
        m = r.random()
        if m < 0.35:
            r.shuffle(ps)
        elif m < 0.5 and len(ps) > 1:
            k = r.randrange(len(ps))
            ps = ps[k:] + ps[:k]
        return ps

    def compose(self):
        """the lines of a file not written by objutils"""
        r, f = self.r, self.fmt
        ps = self.chunks()
        if f in ("fpc", "titxt", "ash") and r.random() < 0.3:  # readers take any address
            up = r.choice([0x10000, 0x123 << 16, 0x7FFF << 16, 0x8000 << 16, 0xFFFE << 16, r.getrandbits(15) << 16])
            ps = [(a + up, d) for a, d in ps]
        out = []
        hx = lambda b: bytes(b).hex().upper()  # noqa: E731
        if f in ("titxt", "ash", "cosmac", "fpc") and r.random() < 0.25 and all(a > 40 for a, _ in ps):
            ps.insert(0, (0, self.data(r.choice([1, 2, 16]))))  # no address: at 0
        if f == "ihex":
            def rec(t, a, d):
                b = bytes([len(d), a >> 8, a & 255, t]) + bytes(d)
                return ":" + hx(b + bytes([-sum(b) & 255]))
            base = 0
            for a, d in ps:
                if not (base <= a and a - base + len(d) <= 0x10000) or r.random() < 0.2:
                    if a + len(d) <= 0x100000 and r.random() < 0.55:
                        lo = max(0, -(-(a + len(d) - 0x10000) // 16))
                        seg = r.choice([min(a >> 4, 0xFFFF), lo, (a >> 16) << 12, r.randint(lo, min(a >> 4, 0xFFFF))])
                        if not (seg * 16 <= a and a - seg * 16 + len(d) <= 0x10000):
                            seg = a >> 4
                        out.append(rec(2, r.choice([0, 0, 0, 0x1234]), [seg >> 8, seg & 255]))
                        base = seg * 16
                    else:
                        out.append(rec(4, 0, [a >> 24, a >> 16 & 255]))
                        base = a >> 16 << 16
                out.append(rec(0, a - base, d))
                if r.random() < 0.08:
                    out.append(rec(r.choice([3, 5]), 0, r.randbytes(4)))
                if r.random() < 0.04:  # types nobody knows
                    out.append(rec(r.choice([6, 7, 8, 9, 0x10, 0x20, 0x42, 0x99]), r.getrandbits(16), r.randbytes(r.choice([1, 2, 4, 16]))))
            if r.random() < 0.9:
                out.append(":00000001FF" if r.random() < 0.7 else rec(1, r.getrandbits(16), []))
        elif f == "srec":
            def rec(t, w, a, d):
                b = bytes([w + len(d) + 1]) + a.to_bytes(w, "big") + bytes(d)
                return f"S{t}" + hx(b + bytes([~sum(b) & 255]))
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                out.append(rec(0, 2, r.choice([0, 0, 0x4321]), r.choice([b"HDR", b"x", b"module name \x00\x01", r.randbytes(20)])))
            for a, d in ps:
                ok = [t for t in (1, 2, 3) if a + len(d) - 1 < 1 << 8 * (t + 1)]
                t = ok[0] if r.random() < 0.7 else r.choice(ok)
                d = d[: 253 - t]
                out.append(rec(t, t + 1, a, d))
            if r.random() < 0.4:
                out.append(rec(5, r.choice([2, 2, 3, 4]), len(ps) & 0xFFFF, b""))
            if r.random() < 0.6:
                t = r.choice([9, 8, 7])
                out.append(rec(t, 11 - t, r.getrandbits(8 * (11 - t)), b""))
        elif f == "sig":
            def rx(b):
                c = 0
                for v in b:
                    c ^= v
                    c = (c << 1 | c >> 7) & 255
                return c
            for a, d in ps:
                h = bytes([a >> 8, a & 255, len(d)])
                out.append(":" + hx(h + bytes([rx(h)]) + d + bytes([rx(d)])))
            if r.random() < 0.9:
                out.append(f":{r.getrandbits(16):04X}00")
        elif f == "tek":
            ns = lambda b: sum((v >> 4) + (v & 15) for v in b) & 255  # noqa: E731
            for a, d in ps:
                h = bytes([a >> 8, a & 255, len(d)])
                out.append("/" + hx(h + bytes([ns(h)]) + d + bytes([ns(d)])))
            if r.random() < 0.9:
                h = bytes([*divmod(r.getrandbits(16), 256), 0])
                if r.random() < 0.1:
                    h = bytes([0xFF, r.choice([0xFF, 0, 0xF0, 1]), 0])
                out.append("/" + hx(h + bytes([ns(h)])))
        elif f == "mostec":
            for a, d in ps:
                h = bytes([len(d), a >> 8, a & 255]) + d
                out.append(";" + hx(h + (sum(h) & 0xFFFF).to_bytes(2, "big")))
            if r.random() < 0.9:
                out.append(";00")
        elif f == "emon52":
            for a, d in ps:
                out.append(f"{len(d):02X} {a:04X}:{' '.join(f'{x:02X}' for x in d)} {sum(d) & 0xFFFF:04X}")
        elif f == "etek":
            for a, d in ps:
                ll = (len(d) + 5) * 2
                c = sum(int(x, 16) for x in f"{ll:02X}6{a:05X}{hx(d)}") & 255
                out.append(f"%{ll:02X}6{c:02X}{a:05X}{hx(d)}")
            if r.random() < 0.4:
                d, a = r.randbytes(r.choice([1, 2, 4, 8])), r.getrandbits(20)
                ll = (len(d) + 5) * 2
                c = sum(int(x, 16) for x in f"{ll:02X}8{a:05X}{hx(d)}") & 255
                out.append(f"%{ll:02X}8{c:02X}{a:05X}{hx(d)}")
        elif f == "fpc":
            cs = [chr(n) for n in range(37, 123) if n != 42]
            def enc(b):
                b += bytes(r.choice([0, 0, 4]) + -len(b) % 4)
                o = ""
                for i in range(0, len(b), 4):
                    v = int.from_bytes(b[i : i + 4], "big")
                    g = ""
                    for _ in range(5):
                        v, m = divmod(v, 85)
                        g = cs[m] + g
                    o += g
                return "$" + o
            at = 0
            for a, d in ps:
                h = bytes([len(d) + 4, 0, 0]) + a.to_bytes(4, "big") + d
                if a == at and r.random() < 0.6:  # follows the record before
                    h = bytes([len(d) + 4, 0, 1]) + d
                out.append(enc(bytes([-sum(h) & 255]) + h))
                at = a + len(d)
            if r.random() < 0.9:
                out.append("$%%%%%")
        elif f == "cosmac":
            at = 0
            for a, d in ps:
                if a == at and r.random() < 0.4:
                    out.append(hx(d))
                else:
                    out.append(r.choice(["!M", "?M", ""]) + f"{a:04X} {hx(d)}")
                at = a + len(d)
        elif f == "rca":
            nul = "\0" * 48 + "\r"
            out.append(nul) if r.random() < 0.5 else None
            out.append("!M") if r.random() < 0.8 else None
            out += [f"{a:04X} {hx(d)};" for a, d in ps]
            out.append(":0000") if r.random() < 0.5 else None
        elif f in ("titxt", "ash"):
            at = 0
            out.append("\x02 ") if f == "ash" else None
            for a, d in ps:
                if a != at or r.random() < 0.2:
                    out.append(f"@{a:0{r.choice([2, 4, 4, 4, 5, 8])}X}" if f == "titxt" else f"$A{a:0{r.choice([2, 4, 4, 6])}X}" + r.choice(",."))
                out.append((" " if f == "titxt" else r.choice(" %',")).join(f"{x:02X}" for x in d))
                at = a + len(d)
            out.append("q") if f == "titxt" else out.append(f"\x03$${sum(sum(d) for _, d in ps) & 0xFFFF:04X},")
        elif f == "shf":
            w = r.choice([1, 1, 2, 4])
            if r.random() < 0.02:  # a block of more than 4096 words
                a, d = max(ps)
                ps.append((a + len(d) + 1, r.randbytes(r.choice([4096, 4100, 8200]))))
            out.append('<?xml version="1.0" encoding="UTF-8"?>')
            out.append(f'<dump name="x" blocks="{len(ps):04x}">')
            for i, (a, d) in enumerate(ps):
                ww = w if len(d) % w == 0 else 1
                t = d.hex(r.choice(" \n")) if r.random() < 0.7 else d.hex()
                bad = r.random() < 0.1
                at = [("name", f"s{i}"), ("address", f"{a:{r.choice(['x', '08x', '08X'])}}"), ("word_size", f"{0 if r.random() < 0.03 else ww:02x}"), ("length", f"{len(d) // ww + (1 if bad and r.random() < 0.5 else 0):{r.choice(['x', '08x', '04X'])}}"), ("checksum", sha1(d + (b"!" if bad else b"")).hexdigest())]
                if r.random() < 0.12:  # an attribute that is missing
                    at.pop(r.randrange(5))
                if r.random() < 0.2:
                    r.shuffle(at)
                if r.random() < 0.15:  # white space in numbers does not count
                    at = [(k, v if k == "name" else f" {v} " if r.random() < 0.5 else v[:1] + " " + v[1:]) for k, v in at]
                out.append("<block " + " ".join(f'{k}="{v}"' for k, v in at) + f">{t if r.random() < 0.8 else t.upper()}</block>")
            out.append("</dump>")
        elif f == "bin":
            return b"".join(d for _, d in ps)
        if f != "fpc" and f != "shf" and r.random() < 0.25:
            out = [x if r.random() < 0.4 else (x[0] + x[1:].lower() if f == "srec" else x if x in ("q", "!M") or x[:2] in ("!M", "?M", "$A") else x.lower()) for x in out]
        if f != "shf" and r.random() < 0.1:
            out.insert(r.randrange(len(out) + 1), "")
        if f in ("ihex", "srec", "sig", "tek") and r.random() < 0.15:
            out.insert(r.randrange(len(out) + 1), r.choice(["# a comment", "; 00", "*** 0123456789ABCDEF ***", " " + out[0]]))
        eol = "\r\n" if r.random() < 0.25 and f not in ("rca",) else "\n"
        t = eol.join(out)
        if r.random() < 0.7:
            t += eol
        return t.encode("latin1")

    # ------------------------------------------------------------ corruption
    def corrupt(self, txt):
        """change, drop, add, swap characters of one record"""
        r = self.r
        ls = txt.split(b"\n")
        cand = [i for i, l in enumerate(ls) if len(l.strip()) > 8]
        if not cand:
            return txt
        i = r.choice(cand)
        eol = b"\r" if ls[i].endswith(b"\r") else b""
        l = bytearray(ls[i].rstrip(b"\r"))
        alpha = bytes(n for n in range(37, 123) if n != 42) if self.fmt == "fpc" else b"0123456789ABCDEF"
        m = r.randrange(8)
        k = r.randrange(1, len(l))
        if self.fmt == "srec" and k == 1:
            k = 2
        if m < 4:  # one character
            l[k] = r.choice([c for c in alpha if c != l[k]]) if l[k] in alpha or chr(l[k]).isalnum() else l[k]
        elif m == 4:  # two characters
            for _ in range(2):
                k = r.randrange(2, len(l))
                if chr(l[k]).isalnum() or self.fmt == "fpc":
                    l[k] = r.choice(alpha)
        elif m == 5:  # bytes lost
            n = 5 if self.fmt == "fpc" else 3 if self.fmt == "emon52" else 2
            p = r.randrange(1, max(2, len(l) - n))
            if self.fmt != "emon52":
                p = 1 + (p - 1) // n * n
            del l[p : p + n]
        elif m == 6:  # bytes added
            n = 5 if self.fmt == "fpc" else 3 if self.fmt == "emon52" else 2
            p = len(l) - r.choice([0, 2, 4]) if self.fmt not in ("fpc", "emon52") else len(l) if self.fmt == "fpc" else 8
            l[p:p] = bytes(r.choice(alpha) for _ in range(n)) if self.fmt != "emon52" else b":00"[:0] + b"00 " if p != 8 else b"00 "
            if self.fmt == "emon52":
                l = bytearray(ls[i].rstrip(b"\r"))
                l[8:8] = b"00 "
        else:  # swap two characters
            j = r.randrange(1, len(l) - 1)
            if self.fmt == "srec" and j == 1:
                j = 2
            if j + 1 < len(l):
                l[j], l[j + 1] = l[j + 1], l[j]
        ls[i] = bytes(l) + eol
        return b"\n".join(ls)


def replay(args):
    out = Out(args.out)
    n = 0
    with open(args.replay) as f:
        for k, line in enumerate(f):
            if k % args.shards != args.shard:
                continue
            t = json.loads(line)
            n += 1
            txt = b"\n".join(bytes(x) for x in t["lines"]) + b"\n"
            x, got = "", []
            try:
                got = secs(objutils.loads(t["fmt"], txt if k % 3 else txt.decode("ascii")))
            except Exception as e:
                x = type(e).__name__
            good = (x != "") if t["st"] == "bad" else (x == "" and got == t["img"])
            if not good:
                out.put({"mismatch": f"{t['fmt']} file {txt.decode('latin1')!r}: " + (f"raised {x}" if x else f"loaded as {got}"), "key": f"replay {t['fmt']}", "want": t, "got": got})
    out.put({"n": n})
    out.close()


def scenarios(args):
    """images and options chosen by TLC: write them, TLC judges the files"""
    out = Out(args.out)
    with open(args.scenarios) as f:
        for k, line in enumerate(f):
            if k % args.shards != args.shard:
                continue
            t = json.loads(line)
            o, fmt = t["opts"], t["fmt"]
            g = Gen(args, k, fmt)
            img = Image([Section(unpair(s["a"]), bytes(s["d"])) for s in t["img"]], join=k % 2 == 0)
            o["lens"] = [len(x) for x in img.sections]
            kw = {"row_length": o["row"]}
            if o["ty"]:
                kw["record_type"] = o["ty"]
            if o["s5"]:
                kw["s5record"] = True
            if o["start"]:
                kw["start_address"] = unpair(o["start"])
            e = {"kind": "write", "fmt": fmt, "img": t["img"], "opts": o, "head": [], "entry": [], "badopt": False, "x": "", "lines": []}
            try:
                txt = bytes(g.dumps(img, kw, "dumps"))
                e["lines"] = lines_of(txt)
            except Exception as x:
                e["x"] = type(x).__name__
            out.put({"id": f"scenario-{fmt}-{k}", **e})
            if not e["x"]:
                out.put({"id": f"scenario-{fmt}-{k}-back", **g.read_case(txt, how="loads")})
    out.close()


def fmts(args):
    if args.fmts:
        return args.fmts.split(",")
    return {"corrupt": CHECKED, "limits": [f for f in ALL if f != "shf"]}.get(args.focus, ALL)


def main():
    p = parser()
    p.add_argument("--fmts", default="")
    p.add_argument("--scenarios", default="")
    args = p.parse_args()
    if args.replay:
        return replay(args)
    if args.scenarios:
        return scenarios(args)
    out = Out(args.out)
    n = args.n or 20
    for fmt in fmts(args):
        for i in range(n):
            g = Gen(args, i, fmt)
            r = g.r
            cid = f"{args.focus}-{fmt}-{args.shard}-{i}"
            if args.focus == "big" and fmt == "srec" and i == 0 and args.shard < 3:
                out.put({"id": cid + "-many", **g.many_case()})
            if args.focus in ("write", "srec", "limits", "big"):
                e, txt = g.write_case(args.focus)
                out.put({"id": cid, **e})
                if not e["x"] and txt and args.focus != "limits":
                    out.put({"id": cid + "-back", **g.read_case(txt)})
            elif args.focus == "read":
                out.put({"id": cid, **g.read_case(g.compose())})
            elif args.focus == "corrupt":
                txt = g.compose() if r.random() < 0.6 else g.write_case()[1]
                if txt:
                    out.put({"id": cid, **g.read_case(g.corrupt(txt))})
            elif args.focus == "chain":
                # an image through several formats; the narrowest address range bounds it
                chain = [fmt] + [r.choice([x for x in ALL if x != "bin"]) for _ in range(r.choice([1, 2, 3, 4]))]
                g.fmt = min(chain, key=bits)
                ss = g.image()
                img = g.mk(ss)
                e = {"id": cid, "kind": "chain", "fmt": "chain", "img": [{"a": pair(a), "d": list(d)} for a, d in ss], "to": [], "x": "", "chain": chain}
                try:
                    for f in chain:
                        g.fmt = f
                        kw = {}
                        if f not in ("shf", "bin") and r.random() < 0.5:
                            kw["row_length"] = r.choice([1, 3, 8, 16, 31, 32, 64, 100])
                        if f == "bin":
                            continue
                        img = g.loads(g.dumps(img, kw))
                    e["to"] = secs(img)
                except Exception as x:
                    e["x"] = f"{f}: {type(x).__name__}"
                out.put(e)
            elif args.focus == "reuse":
                # one reader and one writer object used for several files
                rd, wr = objutils.registry.get(fmt).Reader(), objutils.registry.get(fmt).Writer()
                for j in range(r.choice([2, 3, 4])):
                    if r.random() < 0.5:
                        ss = g.image()
                        img = g.mk(ss)
                        kw, o = g.opts(ss, "write") if r.random() < 0.6 else ({}, {"row": 16, "ty": 0, "s5": False, "start": [], "fill": 255})
                        o["lens"] = [len(x) for x in img.sections]
                        bad = False
                        if fmt not in ("shf", "bin") and r.random() < 0.15:  # what a fresh writer does not know, no writer knows
                            kw[r.choice(["start_address" if fmt != "srec" else "start", "record_count", "previosAddress", "foo"])] = 1
                            bad = True
                        e = {"id": f"{cid}.{j}", "kind": "write", "fmt": fmt, "img": [{"a": pair(a), "d": list(d)} for a, d in ss], "opts": o, "head": [], "entry": [], "badopt": bad, "x": "", "lines": []}
                        try:
                            txt = bytes(wr.dumps(img, **kw))
                            if fmt == "bin":
                                e["bytes"] = list(txt)
                            elif fmt == "shf":
                                e["blocks"], e["count"] = blocks_of(txt)
                            else:
                                e["lines"] = lines_of(txt)
                        except Exception as x:
                            e["x"] = type(x).__name__
                        out.put(e)
                    else:
                        txt = g.compose()
                        if r.random() < 0.2:
                            txt = g.corrupt(txt) if fmt in CHECKED else txt
                        out.put({"id": f"{cid}.{j}", **g.read_case(txt, reader=rd)})
            elif args.focus == "same":
                # string and file based entry points
                ss = g.image()
                img = g.mk(ss)
                kw, o = g.opts(ss, "same")
                res = []
                for how in ("dumps", "file", "fp", "writer"):
                    try:
                        res.append({"x": "", "v": list(bytes(g.dumps(img, kw, how)))})
                    except Exception as x:
                        res.append({"x": type(x).__name__, "v": []})
                txt = g.compose()
                got = []
                for how in ("loads", "str", "file", "fp", "bytearray"):
                    try:
                        got.append({"x": "", "v": secs(g.loads(txt, how))})
                    except Exception as x:
                        got.append({"x": type(x).__name__, "v": []})
                out.put({"id": cid, "kind": "same", "fmt": fmt, "res": res, "got": got})
    out.close()


if __name__ == "__main__":
    main()
