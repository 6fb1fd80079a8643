"""IEEE-695 object modules: what objutils.ieee695.Reader knows after reading one.

--scenarios FILE  modules printed by TLC (Ieee695MC.tla)
otherwise         random modules, some cut short or damaged
"""
import contextlib
import io
import json
import os

from common import Out, magnitude, parser, rng

from objutils.ieee695 import Reader


def val(x):
    """value -> the specification's value"""
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, str):
        return [0, ord(x)] if len(x) == 1 else [ord(c) for c in x]
    return magnitude(x)


def opt(o, name):
    x = getattr(o, name, None)
    return [] if x is None else [val(x)]


def text(o, name):
    x = getattr(o, name, None)
    return [] if x is None else [x]


BLOCKS = {
    1: ["module_name"],
    2: ["zeroLengthName"],
    3: ["module_name"],
    4: ["functionName", "stackSpaceRequired", "typeIndexOfReturnValue", "offsetExpr"],
    5: ["sourceFilename", "year", "month", "day", "hour", "minute", "second"],
    6: ["functionName", "stackRequired", "typeIndexForReturnValue", "offsetExpr"],
    10: ["module_name", "objFileName", "toolType", "versionRevision", "year", "month", "day", "hour", "minute", "second"],
    11: ["zeroLengthName", "sectionType", "sectionIndex", "offsetExpr", "dummy", "sectionMapping"],
}


def walk(node, depth, out):
    for x in node.children:
        ok = x.parent is node and x.name == f"BB{x.blockType}"
        out.append({"depth": depth if ok else -1, "t": x.blockType, "size": val(x.blockSize), "f": [opt(x, f) for f in BLOCKS.get(x.blockType, [])]})
        walk(x, depth + 1, out)
    return out


ASW = ["AD Extension", "Environment", "Section", "External", "Debug", "Data", "Trailer", "Module End"]


def observe(b, q):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = Reader(io.BytesIO(bytes(b)))
    except Exception as e:
        return {"b": b, "x": type(e).__name__}
    i = r.info
    d = getattr(i, "creationDate", None)
    h = {"processor": opt(i, "processor"), "module": opt(i, "module"), "bits": opt(i, "numberOfBits"), "maus": opt(i, "numberOfMAUs"), "width": opt(i, "adressWidth"), "order": opt(i, "byteOrder"),
         "start": opt(i, "executionStartingAddr"), "version": opt(i, "objectFormatVersionNumber"), "rev": opt(i, "objectFormatRevisionLevel"), "fmt": text(i, "objectFormatType"),
         "sens": text(i, "symbolCaseSensitivity"), "mem": text(i, "memoryModel"), "date": [] if d is None else [val(x) for x in (d.year, d.month, d.day, d.hour, d.minute, d.second)],
         "cmd": opt(i, "commandLine"), "exec": opt(i, "executionStatus"), "host": opt(i, "hostEnvironment"), "comments": opt(i, "comments")}
    asw = [{"k": val(k), "v": val(v[1])} for k, v in i.ASWs.items() if v[0] == ASW[k]]
    secs = [{"k": val(k), "type": [ord(c) for c in s.sectionType], "name": val(s.sectionName), "parent": opt(s, "parentSectionIndex"), "size": opt(s, "sectionSize"),
             "region": [val(x) for x in s.regionSize], "phys": [val(x) for x in s.physicalAddress], "offs": [val(x) for x in s.sectionOffset], "mau": opt(s, "mauSize"),
             "base": opt(s, "sectionBaseAddr"), "m": opt(s, "mValue"), "align": opt(s, "boundaryAlignment"), "page": opt(s, "pageSize")} for k, s in r.sections.items()]
    syms = [{"k": val(k), "name": val(s.symbolName), "expr": opt(s, "expr"), "class": opt(s, "symbolClass"), "pub": opt(s, "publicLocalIndicator"), "num": opt(s, "numericValue"),
             "str": opt(s, "stringValue"), "type": opt(s, "symbolTypeIndex"), "count": opt(s, "numberOfElements"), "attr": opt(s, "attrDef")} for k, s in r.symbols.items() if s.nameIndex == k]
    exts = [{"k": val(k), "name": val(s.symbolName), "size": opt(s, "defaultSize"), "value": opt(s, "defaultValue"), "type": opt(s, "typeIndex"), "sec": opt(s, "sectionIndex"),
             "short": opt(s, "shortExternalFlag")} for k, s in r.externalSymbols.items()]
    names = [{"k": val(k), "name": val(s.name)} for k, s in r.nnRecords.items()]
    ctxs = [{"k": val(k), "name": val(s)} for k, s in r.contexts.items()]
    return {"b": b, "x": "", "h": h, "asw": asw, "secs": secs, "syms": syms, "exts": exts, "names": names, "ctxs": ctxs, "tree": walk(r.debugInformation[0], 0, []), "data": list(r.dbCollection)}


# ------------------------------------------------------------------ random modules
class Module:
    def __init__(self, q):
        self.q, self.b = q, bytearray()
        self.secs, self.syms, self.exts, self.open = [], [], [], []
        self.aligned = self.long = False

    def number(self):
        q = self.q
        return q.choice([q.randrange(128), 127, 128, q.randrange(256), q.randrange(65536), q.randrange(1 << 32), q.randrange(1 << 64), (1 << 32) - 1, 0])

    def n(self, v=None):
        v = self.number() if v is None else v
        if v < 128 and self.q.random() < 0.8:
            self.b.append(v)
        else:
            w = (v.bit_length() + 7) // 8
            w = max(1, w if self.q.random() < 0.7 else self.q.randint(w, 8))
            self.b.append(128 + w)
            self.b += v.to_bytes(w, "big")

    def s(self, n=None):
        q = self.q
        n = q.choice([0, 1, 3, q.randrange(20), q.choice([127, 128, 255, 256, 300]) if q.random() < 0.2 else 5]) if n is None else n
        if self.long:  # once
            n, self.long = 32768 + q.randrange(300), False
        d = bytes(q.choice([q.randrange(256), q.randrange(32, 127)]) for _ in range(n))
        k = q.choice([0, 0, 1, 2])
        self.b += bytes([n]) if n < 128 and k == 0 else bytes([222, n]) if n < 256 and k < 2 else bytes([223, n >> 8, n & 255])
        self.b += d

    def some(self, n):
        """the first optional numbers"""
        for _ in range(self.q.randint(0, n)):
            if self.q.random() < 0.12:
                self.b.append(self.q.choice([0xC0, 0xC1, 0xCD, 0xD9, 0xDA, 0xDB]))  # a letter
            else:
                self.n()

    def date(self):
        q = self.q
        for v in (q.randint(1980, 2030), q.randint(1, 12), q.randint(1, 28), q.randrange(24), q.randrange(60), q.randrange(60)):
            self.n(v)

    def cmd(self, *c):
        self.b += bytes(c)

    def section(self):
        q = self.q
        k = q.choice([1, 2, 3, 127, 128, 300])
        self.cmd(0xE6)
        self.n(k)
        self.cmd(*(ord(c) + 128 for c in q.choice(["ASP", "ASR", "ASD"])))
        self.s()
        self.some(1)
        self.cmd(0xE2, 0xD3)
        self.n(k)
        self.n()
        self.secs.append(k)

    def record(self):
        q = self.q
        kind = q.choice(["E2", "E2", "SA", "NI", "ATI", "NX", "EXT", "NN", "NC", "ASN", "TY", "ASG", "ASW", "ATN", "ATN", "BB", "BB", "BE", "BE", "LD", "LD", "SB", "ASP", "ST"])
        sec = q.choice(self.secs) if q.random() < 0.99 else 77
        if kind == "E2":
            self.cmd(0xE2, q.choice([0xC1, 0xC2, 0xC6, 0xCC, 0xCD, 0xD2, 0xD3]))
            self.n(sec)
            self.n()
        elif kind == "SA":
            self.cmd(0xE7)
            self.aligned = True
            self.n(sec)
            self.n(q.choice([0, 1, 2, 4, 12, 31, 40]))
            self.some(1)
        elif kind == "ST":
            self.section()
        elif kind == "NI":
            k = q.choice([32, 33, 127, 128, 1000])
            self.cmd(0xE8)
            self.n(k)
            self.s()
            self.syms.append(k)
        elif kind == "ATI" and self.syms:
            k, t = q.choice(self.syms) if q.random() < 0.98 else 77, q.choice([0, 0, 5, 300])
            if q.random() < 0.5:
                self.cmd(0xE2, 0xC9)
                self.n(k)
                self.n()
                return
            a = q.choice([8, 16, 16, 19])
            self.cmd(0xF1, 0xC9)
            self.n(k)
            self.n(t)
            self.n(a)
            if a == 16:
                self.n()
                if t or q.random() < 0.5:
                    self.n()
                    self.n()
                    self.s()
                else:
                    self.some(2)
            if t:
                self.n()
        elif kind == "NX":
            k = q.choice([1, 2, 200])
            self.cmd(0xE9)
            self.n(k)
            self.s()
            self.exts.append(k)
        elif kind == "EXT" and self.exts:
            c = q.choice([(0xF4,), (0xF1, 0xD8)])
            self.cmd(*c)
            self.n(q.choice(self.exts) if q.random() < 0.97 else 77)
            for _ in range(2 if len(c) == 1 else 3):
                self.n()
        elif kind in ("NN", "NC"):
            self.cmd(0xF0 if kind == "NN" else 0xFB)
            self.n()
            self.s()
        elif kind in ("ASN", "ASP"):
            self.cmd(0xE2, 0xCE if kind == "ASN" else 0xD0)
            self.n()
            self.n()
        elif kind == "TY":
            self.cmd(0xF2)
            self.n()
            self.cmd(0xCE)
            self.n()
            self.some(6)
            if getattr(self, "long", False) or self.q.random() < 0.02:
                for _ in range(self.q.randint(200, 700)):  # a type of many parameters
                    self.n()
        elif kind == "ASG":
            self.cmd(0xE2, 0xC7, 0xBE)
            self.n()
            self.cmd(0xBF)
        elif kind == "ASW":
            self.cmd(0xE2, 0xD7, q.randrange(8))
            self.n()
        elif kind == "ATN":
            a = q.choice([1, 2, 3, 7, 8, 9, 10, 19, 37, 38, 39, 40, 50, 51, 52, 53, 54, 55, 64, 65])
            self.cmd(0xF1, 0xCE)
            self.n()
            self.n()
            self.n(a)
            if a in (38, 39, 40):
                self.n(q.choice([1, 2, 2, 1, 1, q.randrange(8)]))
            elif a == 50:
                self.date()
            elif a in (51, 55, 65):
                self.s()
            else:
                for _ in range({3: 0, 8: 0, 7: 2, 10: 2, 37: 2, 64: 2, 54: 3}.get(a, 1)):
                    self.n()
                self.some({7: 2, 19: 1}.get(a, 0))
                if a == 54 and q.random() < 0.5:
                    self.cmd(q.randint(0xC1, 0xDA))
        elif kind == "BB":
            t = q.choice([1, 2, 3, 4, 5, 6, 10, 11])
            self.cmd(0xF8, t)
            self.n()
            self.s()
            if t in (4, 6):
                for _ in range(3):
                    self.n()
            elif t == 5:
                self.some(6)
            elif t == 10:
                self.s()
                self.n()
                if q.random() < 0.7:
                    self.s()
                    self.some(6)
            elif t == 11:
                for _ in range(3):
                    self.n()
                self.cmd(0x90)
                self.n()
            self.open.append(t)
        elif kind == "BE" and self.open:
            t = self.open.pop()
            self.cmd(0xF9)
            if t in (4, 6):
                self.n()
            elif t == 11:
                self.some(1)
        elif kind == "SB":
            self.cmd(0xE5)
            self.n(sec)
        elif kind == "LD":
            n = q.choice([1, 2, 4, 16, 127, 128, 130])
            self.cmd(0xED)
            self.n(n)
            self.b += bytes(q.randrange(256) for _ in range(n * self.bits // 8))

    def make(self):
        q = self.q
        self.bits = q.choice([8, 8, 8, 16, 32, 4, 12, 24])
        self.cmd(0xE0)
        self.s()
        self.s()
        self.cmd(0xEC)
        self.n(self.bits)
        self.n(q.choice([1, 2, 4]))
        if q.random() < 0.8:
            self.cmd(q.choice([0xCC, 0xCD]))
        self.section()
        for _ in range(q.randint(0, 25)):
            self.record()
        self.cmd(0xE1)
        b = list(self.b)
        z = q.random()
        if z < 0.15:
            b = b[: q.randrange(len(b))]
        elif z < 0.2 and not self.aligned:  # a damaged alignment is a power of two without end
            b[q.randrange(len(b))] = q.randrange(256)
        elif z < 0.3:
            b += [q.randrange(256) for _ in range(q.randint(1, 5))]
        return b


def main():
    p = parser()
    p.add_argument("--scenarios", default="")
    a = p.parse_args()
    out, q = Out(a.out), rng(a)
    if a.scenarios:
        with open(a.scenarios) as f:
            for n, line in enumerate(f):
                if n % a.shards == a.shard:
                    out.put(observe(json.loads(line)["b"], q))
    else:
        for n in range(a.n):
            m = Module(q)
            m.long = n in (1, 2) and a.shard < 2  # a name longer than 32767 characters
            out.put(observe(m.make(), q))
    out.close()


main()
