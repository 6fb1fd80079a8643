"""Histories of operations on Image and Section objects.

--replay FILE   transitions printed by TLC from ImageMC.tla: build the pre-state, run the
                operation on the real objects, compare with what the specification says
otherwise       record random histories for ImageTrace.tla (--focus selects the mix)
"""
import json
import struct
import sys

from common import Out, flt, num, parser, rng
from imgworld import Kept, World

from objutils import Section

BASES = [0, 0x10, 0x7F, 0xFFF0, 0x10000, 0x7FFFFFF0, 0x80000000, 0xFFFFFFF8, 0x100000000, (1 << 63) - 4, (1 << 64) - 16, 1 << 70]
DT = {f"{k}{b}_{o}": (k, b // 8) for k in ("uint", "int") for b in (8, 16, 32, 64) for o in ("le", "be")}
DT.update({f"float{b}_{o}": ("float", b // 8) for b in (32, 64) for o in ("le", "be")})
DT["byte"] = ("uint", 1)
TYPES = sorted(DT)
BADTYPES = ["uint24_le", "uint16", "int32", "float16_be", "float64", "uint_le", "uint128_be", "bytes"]
FORMS = ["bytes", "bytearray", "list", "tuple", "array", "array16", "memoryview", "memoryview16", "numpy", "numpy16", "section", "str", "iter", "stride", "npstride", "backwards"]
TEXT = [0x20, 0x41, 0x42, 0x7A, 0x7E, 0xA0, 0xE4, 0xFF, 0x100, 0x3B1, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0x10000, 0x1F600, 0x10FFFF]
ALIASES = {"ascii": ["ASCII", "us-ascii"], "latin1": ["", "", "latin-1", "iso-8859-1", "LATIN1"], "utf-8": ["utf8", "UTF-8", "U8"], "utf-16-le": ["UTF-16LE", "utf_16_le"], "utf-16-be": ["UTF-16BE"]}
ENCS = ["ascii", "latin1", "utf-8", "utf-8", "utf-16-le", "utf-16-be"]


def replay(args):
    out = Out(args.out)
    bases = BASES if args.tier == "thorough" else [0, 0x10000, 0xFFFFFFF8, (1 << 64) - 16]
    n = 0
    with open(args.replay) as f:
        for k, line in enumerate(f):
            if k % args.shards != args.shard:
                continue
            t = json.loads(line)
            for b in (bases if args.tier == "thorough" else [bases[k // args.shards % len(bases)]]):
                if any(op["o"] == "ins" and "a" not in op for op in [*t["h"], t["op"]]):
                    b = 0  # the cursor of a new image is address 0
                n += 1
                w = World(b).load(t["init"])
                for op in t["h"]:
                    w.run(op)
                e = w.run(t["op"])
                faults = t["f"]
                post = [o["s"] for o in t["post"]]
                if faults:
                    good = e["x"] != "" and ("other" in faults or e["x"] == "InvalidAddressError")
                else:
                    good = e["x"] == "" and e["r"] == t["r"]
                if good and e["w"] != post:
                    good = False
                if not good:
                    out.put({"mismatch": f"{t['op']['o']}: {json.dumps(t['op'])} base {b:#x}", "key": "replay:" + t["op"]["o"], "want": t, "got": e})
    out.put({"n": n})
    out.close()


class Gen:
    """Random histories; values are biased to boundaries."""

    def __init__(self, args, i):
        self.r = rng(args, i)
        self.i, self.shard = i, args.shard
        self.focus = args.focus
        self.base = self.r.choice(BASES) if self.r.random() < 0.8 else self.r.randrange(1 << 40)
        self.w = World(self.base)
        self.ev = []
        self.every = 1  # contents are recorded after every n-th event

    def do(self, **op):
        if op.get("form") is None:
            op.pop("form", None)
        if "t" in op and self.r.random() < 0.1:
            op["sp"] = self.r.choice(["upper", "title", "space"])  # another spelling of the type
        if "e" in op and self.r.random() < 0.15:
            op["es"] = self.r.choice(ALIASES[op["e"]])
        e = self.w.run(op)
        if len(self.ev) % self.every:
            self.last = e.pop("w")
        self.ev.append(e)
        return e["x"] == ""

    def data(self, n):
        r = self.r
        m = r.randrange(5)
        if m == 0:
            return [r.choice([0, 255])] * n
        if m == 1:
            return [(i * 7 + 3) % 256 for i in range(n)]
        return [r.randrange(256) for _ in range(n)]

    def length(self, big=False):
        r = self.r
        return r.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33, 40] + ([64, 100, 130] if big else []))

    def intval(self, k, wd):
        r = self.r
        lo, hi = (0, 2 ** (8 * wd) - 1) if k == "uint" else (-(2 ** (8 * wd - 1)), 2 ** (8 * wd - 1) - 1)
        return r.choice([lo, hi, lo - 1, hi + 1, 0, 1, -1, r.randint(lo, hi), r.randint(lo, hi), hi // 2, lo + 1, 2 ** (8 * wd), r.randint(-(2**70), 2**70)])

    def value(self, t, good=False):
        r = self.r
        k, wd = DT[t]
        if k == "float":
            while True:
                m = r.randrange(6)
                if m == 0:
                    x = r.choice([0.0, -0.0, 1.0, -1.5, 3.4028234663852886e38, 3.4028235677973366e38, 1e39, 5e-324, 1.401298464324817e-45, 7e-46, 1.1754943508222875e-38, float("inf"), float("-inf"), float("nan"), 2.0**-149, 2.0**-150, 2.0**-150 * 1.0000001, 1.7976931348623157e308])
                elif m == 1:
                    x = struct.unpack("<f", r.randbytes(4))[0]
                elif m == 2:
                    x = struct.unpack("<d", r.randbytes(8))[0]
                elif m == 3:
                    # around single-precision ties
                    mant = r.getrandbits(23) << 29 | r.choice([0, 1 << 28, (1 << 28) - 1, (1 << 28) + 1, (1 << 29) - 1])
                    x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(1) << 63 | r.choice([r.randint(868, 900), r.randint(1020, 1030), 1150, 1149]) << 52 | mant))[0]
                else:
                    x = r.uniform(-1e6, 1e6)
                if good and wd == 4:
                    try:
                        struct.pack("<f", x)
                    except OverflowError:
                        continue
                return flt(x)
        while True:
            v = self.intval(k, wd)
            lo, hi = (0, 2 ** (8 * wd) - 1) if k == "uint" else (-(2 ** (8 * wd - 1)), 2 ** (8 * wd - 1) - 1)
            if not good or lo <= v <= hi:
                return num(v)

    # ------------------------------------------------------------- addresses
    def images(self):
        return [i + 1 for i, o in enumerate(self.w.objs) if not isinstance(o, type(self.w.objs[0])) or True]

    def addr(self, x, span=1):
        """an address for object x: inside, at the edges, outside"""
        r = self.r
        secs = self.w.secs(self.w.objs[x - 1])
        secs = [s for s in secs]
        if not secs:
            return r.randrange(0, 50)
        s = r.choice(secs)
        a, n = s.start_address - self.base, len(s)
        m = r.randrange(10)
        if m < 5 and n >= span:
            return a + r.randint(0, n - span)
        return a + r.choice([0, n - span, n - span + 1, n - 1, n, n + 1, -1, -2, n - span - 1, r.randint(-3, n + 3)])

    def text(self):
        r = self.r
        pool = TEXT[:4] if r.random() < 0.4 else TEXT[:8] if r.random() < 0.5 else TEXT
        return [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8]))]

    # -------------------------------------------------------------- building
    def build(self, nsec=None, big=False, image=None):
        """an object with some sections"""
        r = self.r
        if image is None:
            image = r.random() < 0.75
        if not image:
            self.do(o="sec", a=r.choice([0, 1, 5, 100]), d=self.data(self.length(big)), form=r.choice(FORMS))
            return len(self.w.objs)
        self.do(o="new", **{"from": []}, j=True, zero=self.w.rel(0))
        x = len(self.w.objs)
        a = r.choice([0, 0, 3, 16])
        plan = []
        for _ in range(nsec if nsec is not None else r.choice([1, 1, 2, 2, 3, 4])):
            n = self.length(big)
            plan.append((a, n))
            a += n + r.choice([0, 0, 1, 2, 7, 200])
        r.shuffle(plan)
        for a, n in plan:
            self.do(o="ins", x=x, a=a, d=self.data(n), j=r.random() < 0.7, form=r.choice(FORMS))
        return x

    # ------------------------------------------------------------ operations
    def rw(self, x):
        r = self.r
        if r.random() < 0.5:
            n = r.choice([0, 1, 1, 2, 3, 4, 8, 11, 20])
            self.do(o="write", x=x, a=self.addr(x, n), d=self.data(n), form=r.choice(FORMS))
        else:
            n = r.choice([0, 1, 1, 2, 3, 4, 8, 11, 20, 50])
            self.do(o="read", x=x, a=self.addr(x, n), n=n)

    def numeric(self, x):
        r = self.r
        t = r.choice(TYPES)
        wd = DT[t][1]
        m = r.random()
        if m < 0.04:
            bad = r.choice(BADTYPES)
            if r.random() < 0.5:
                self.do(o="rn", x=x, a=self.addr(x), t=bad)
            else:
                self.do(o="wn", x=x, a=self.addr(x), t=bad, v=num(1))
        elif m < 0.5:
            v = self.value(t)
            a = self.addr(x, wd)
            self.do(o="wn", x=x, a=a, t=t, v=v)
            if r.random() < 0.7:
                self.do(o="rn", x=x, a=a, t=t)
            if r.random() < 0.3:
                self.do(o="read", x=x, a=a, n=wd)
        elif m < 0.8:
            self.do(o="rn", x=x, a=self.addr(x, wd), t=t)
        else:
            mask = r.choice([0, 1, 0x80, 0xFF, 0xFF00, 0x7FFFFFFF, 0x8000000000000000, 2**64 - 1, r.getrandbits(64), r.getrandbits(8 * wd), 2 ** (8 * wd) - 1, r.getrandbits(80), (1 << 96) - 1, (1 << 96) - 2, (1 << 96) - 256, (1 << 96) - 1 - r.getrandbits(64)])
            self.do(o="rn", x=x, a=self.addr(x, wd), t=t, mask=list(mask.to_bytes(12, "big")), neg=bool(mask >> 79 & 1) and r.random() < 0.7)

    def arrays(self, x):
        r = self.r
        t = r.choice(TYPES)
        wd = DT[t][1]
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 10])
        m = r.random()
        if m < 0.3:
            vs = [self.value(t, good=r.random() < 0.93) for _ in range(n)]
            a = self.addr(x, n * wd)
            self.do(o="wna", x=x, a=a, t=t, v=vs, form=r.choice([None, "tuple"]))
            if r.random() < 0.6:
                self.do(o="rna", x=x, a=a, t=t, n=n)
        elif m < 0.5:
            self.do(o="rna", x=x, a=self.addr(x, n * wd), t=t, n=n)
        else:
            while t == "byte":
                t = r.choice(TYPES)
            wd = DT[t][1]
            sh = [r.choice([1, 1, 2, 2, 3, 4]) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5]))]
            p = 1
            for q in sh:
                p *= q
            if m < 0.75:
                a = self.addr(x, p * wd)
                self.do(o="wnd", x=x, a=a, t=t, sh=sh, lay=r.choice(["C", "F"]), v=[self.value(t, good=True) for _ in range(p)])
                if r.random() < 0.6:
                    self.do(o="rnd", x=x, a=a, t=t, sh=sh, n=p * wd, ord=r.choice(["C", "F"]))
            else:
                self.do(o="rnd", x=x, a=self.addr(x, p * wd), t=t, sh=sh, n=p * wd + (r.choice([0, 0, 0, 0, 1, -1, wd])), ord=r.choice(["C", "F"]))

    def strings(self, x):
        r = self.r
        e = r.choice(ENCS)
        m = r.random()
        if m < 0.45:
            c = self.text()
            n = len("".join(map(chr, c)).encode("utf-8", "surrogatepass")) + 1
            a = self.addr(x, n)
            self.do(o="ws", x=x, a=a, c=c, e=e)
            if r.random() < 0.8:
                self.do(o="rs", x=x, a=a, e=e, n=-1)
            if r.random() < 0.3:
                self.do(o="rs", x=x, a=a, e=r.choice(ENCS), n=r.randrange(0, n + 1))
            if e[:5] == "utf-1" and r.random() < 0.8:
                self.do(o="rs", x=x, a=a, e=e, n=len("".join(map(chr, c)).encode(e, "surrogatepass")))
        else:
            n = r.choice([-1, -1, 0, 1, 2, 3, 5, 9])
            self.do(o="rs", x=x, a=self.addr(x, max(n, 1)), e=e, n=n)

    def inserts(self, x):
        r = self.r
        if r.random() < 0.05:  # data that is no bytes
            a = r.randint(0, 150)
            d = r.choice([[-5], [-1, 3], [256], [1, 2, 300], [-65536]])
            form = "int" if len(d) == 1 and d[0] < 0 and r.random() < 0.7 else "list"
            if r.random() < 0.6:
                self.do(o="ins", x=x, a=a, d=d, j=r.random() < 0.6, form=form)
            else:
                self.do(o="sec", a=a, d=d, form=form)
            return
        secs = self.w.secs(self.w.objs[x - 1])
        n = self.length()
        m = r.random()
        form = r.choice(FORMS)
        if m < 0.1 and any(e["op"]["o"] == "ins" and e["op"]["x"] == x and e["x"] == "" for e in self.ev):
            self.do(o="ins", x=x, d=self.data(n), j=r.random() < 0.6, form=form)
        elif m < 0.2:
            self.do(o="join", x=x)
        elif m < 0.55 or not secs:
            a = r.randint(-3, 120) if self.base > 10 else r.randint(0, 120)
            self.do(o="ins", x=x, a=a, d=self.data(n), j=r.random() < 0.6, form=form)
        else:  # next to, into, around an existing section
            s = r.choice(secs)
            a, ln = s.start_address - self.base, len(s)
            p = r.choice([a + ln, a - n, a + ln - 1, a - n + 1, a, a - 1, a + ln + 1, a - 2])
            if r.random() < 0.2:
                p, n = a - 1, ln + 2
            if p + self.base < 0:
                p = a + ln
            self.do(o="ins", x=x, a=p, d=self.data(n), j=r.random() < 0.6, form=form)

    def queries(self, x):
        r = self.r
        o = self.w.objs[x - 1]
        m = r.randrange(8)
        isimg = hasattr(o, "sections")
        if m < 2:
            self.do(o="has", x=x, a=self.addr(x))
        elif m == 2:
            self.do(o="len", x=x)
        elif m == 3 and isimg:
            self.do(o="get", x=x, a=self.addr(x))
        elif m == 4 and isimg:
            self.do(o="item", x=x, n=r.randrange(-len(o.sections) - 1, len(o.sections) + 1))
        elif m == 5 and isimg:
            self.do(o="iter", x=x)
        elif m == 6 and isimg:
            others = [i + 1 for i, q in enumerate(self.w.objs) if hasattr(q, "sections")]
            self.do(o="eq", x=x, y=r.choice(others))
        else:
            secs = [i + 1 for i, q in enumerate(self.w.objs) if not hasattr(q, "sections") and len(q)]
            if len(secs) > 1 and r.random() < 0.5:
                self.do(o="cmp", x=r.choice(secs), y=r.choice(secs))
            elif secs:
                y = r.choice(secs)
                d = list(self.w.objs[y - 1].data)
                p = r.randrange(len(d))
                pat = d[p : p + r.choice([1, 1, 2, 3])] if r.random() < 0.8 else [1, 2]
                if not set(pat) & set(b".^$*+?{}[]\\|()\n"):
                    self.do(o="find", x=y, p=pat)

    def sharing(self):
        r = self.r
        n = len(self.w.objs)
        m = r.random()
        kept = [i + 1 for i, o in enumerate(self.w.objs) if isinstance(o, Kept)]
        x = r.choice([i for i in range(1, n + 1) if i not in kept])
        isimg = hasattr(self.w.objs[x - 1], "sections")
        if m < 0.18 and n < 7:
            # images made of sections and of other images; only disjoint sources
            cand = [i for i in range(1, n + 1) if i not in kept]
            r.shuffle(cand)
            take, used = [], []
            for i in cand:
                iv = [(s.start_address, s.start_address + max(1, len(s))) for s in self.w.secs(self.w.objs[i - 1])]
                if all(b <= c or d <= a for a, b in iv for c, d in used):
                    take.append(i)
                    used += iv
                if len(take) >= 3:
                    break
            self.do(o="new", **{"from": take}, j=True, zero=self.w.rel(0), form=r.choice(["list", "tuple", "single", "image"]))
        elif m < 0.3 and n < 7:
            self.do(o="sec", a=r.choice([0, 4, 8, 12, 16, 20, 40]), d=self.data(r.choice([1, 2, 4, 4, 8])), form=r.choice(FORMS))
        elif m < 0.36:
            self.do(o="sec", a=r.choice([0, 4, 60]), d=[]) if n < 7 else None
        elif m < 0.42:
            secs = [i + 1 for i, o in enumerate(self.w.objs) if isinstance(o, Section)]
            y = r.choice(secs)
            if r.random() < 0.5:
                self.do(o="ext", x=y, d=self.data(r.choice([1, 2, 3])))
            elif isimg and self.base > 10 and len(self.w.objs[y - 1]):
                join = r.random() < 0.6
                self.do(o="ins", x=x, a=r.choice([2, 6, 10, 14, 24, 44, 64]), d=list(self.w.objs[y - 1].data), src=y, j=join, form=r.choice(["buffer", "section"]) if join else "section")
            elif n < 7:
                self.do(o="sec", a=r.choice([0, 4, 60]), d=list(self.w.objs[y - 1].data), src=y)
        elif m < 0.5 and isimg:
            self.inserts(x)
        elif m < 0.62:
            self.do(o=r.choice(["hexdump", "dumps", "repr", "tobytes"]), x=x, fmt=r.choice(["shf", "ihex", "srec", "titxt", "bin", "ash"])) if isimg else self.do(o=r.choice(["hexdump", "repr", "tobytes"]), x=x)
        elif m < 0.7 and n < 7:
            k = r.choice([1, 2, 3, 4])
            self.do(o="keep", x=x, a=self.addr(x, k), n=k, how=r.choice(["read", "nd"]))
        elif m < 0.75 and kept:
            y = r.choice(kept)
            self.do(o="poke", x=y, p=r.randrange(len(self.w.objs[y - 1].buf)), v=r.randrange(256))
        else:
            self.rw(x)

    # --------------------------------------------------------- large images
    def crowd(self):
        """hundreds of sections, in any order, some of them joined"""
        r = self.r
        self.every = 40
        self.do(o="new", **{"from": []}, j=True, zero=self.w.rel(0))
        x, a, plan = len(self.w.objs), r.choice([0, 3]), []
        for _ in range(r.choice([70, 135, 150, 270, 300])):
            n = r.choice([1, 1, 2, 4, 8])
            plan.append((a, n))
            a += n + r.choice([0, 1, 1, 2, 9, 100])
        m = r.randrange(3)
        if m == 0:
            r.shuffle(plan)
        elif m == 1:
            plan.reverse()
        j = r.choice([0.0, 0.5, 1.0])
        for a, n in plan:
            self.do(o="ins", x=x, a=a, d=self.data(n), j=r.random() < j, form=r.choice(FORMS))
        return x

    def long(self):
        """a section longer than 64 KiB, with neighbours"""
        r = self.r
        self.every = 8
        self.do(o="new", **{"from": []}, j=True, zero=self.w.rel(0))
        x, n = len(self.w.objs), r.choice([65530, 65536, 65540, 70000])
        b = bytearray(r.randbytes(n).replace(b"\0", b"\1"))
        for p in range(r.randrange(500), n, r.choice([500, 3000])):
            b[p] = 0
        self.do(o="ins", x=x, a=4, d=list(b), j=True, form="bytes")
        for a in r.sample([0, 4 + n, 4 + n + 8], r.choice([1, 2])):
            self.do(o="ins", x=x, a=a, d=self.data(4), j=r.random() < 0.5, form="bytes")
        return x

    def history(self):
        ev = self.events()
        if self.every > 1 and "w" not in ev[-1]:
            ev[-1]["w"] = self.last
        return ev

    # ------------------------------------------------------------- histories
    def events(self):
        f, r = self.focus, self.r
        steps = r.choice([4, 8, 12, 16, 24])
        crowd, long = self.i == 1 and self.shard % 2 == 0, self.i == 1 and self.shard % 4 == 1
        if f in ("mem", "bounds"):
            x = self.crowd() if crowd else self.long() if long else self.build(big=True)
            for _ in range(steps):
                q = r.random()
                if q < 0.62:
                    self.rw(x)
                elif q < 0.7:
                    self.numeric(x)
                elif q < 0.78:
                    self.arrays(x)
                elif q < 0.86:
                    self.strings(x)
                elif q < 0.95 and hasattr(self.w.objs[x - 1], "sections"):
                    self.inserts(x)
                else:
                    self.queries(x)
        elif f == "num":
            x = self.crowd() if crowd else self.long() if long else self.build(nsec=r.choice([1, 1, 2]))
            for _ in range(steps):
                self.numeric(x)
        elif f == "arr":
            x = self.crowd() if crowd else self.long() if long else self.build(nsec=r.choice([1, 1, 2]), big=True)
            for _ in range(steps):
                self.arrays(x)
        elif f == "str":
            x = self.crowd() if crowd else self.long() if long else self.build(nsec=r.choice([1, 2]))
            for _ in range(steps):
                self.strings(x) if r.random() < 0.9 else self.rw(x)
        elif f == "build":
            if crowd:
                x = self.crowd()
            elif long:
                x = self.long()
            elif r.random() < 0.4:
                x = self.build(image=True)
            else:
                self.do(o="new", **{"from": []}, j=True, zero=self.w.rel(0))
                x = len(self.w.objs)
            for _ in range(steps):
                self.inserts(x) if r.random() < 0.85 else self.rw(x)
        elif f == "share":
            for _ in range(3):
                self.do(o="sec", a=r.choice([0, 4, 8, 12, 30]), d=self.data(r.choice([0, 1, 2, 4, 4, 4])), form=r.choice(FORMS))
            for _ in range(steps + 6):
                self.sharing()
        elif f == "query":
            if crowd:
                self.crowd()
            for _ in range(r.choice([1, 2, 3])):
                self.build()
            # near copies, for the comparisons
            if r.random() < 0.6:
                a, d = r.choice([0, 5]), self.data(r.choice([1, 2, 3, 8]))
                for _ in range(r.choice([2, 3])):
                    self.do(o="sec", a=a + r.choice([0, 0, 0, 1]), d=r.choice([d, d, d[:-1], d + [0], d[:-1] + [(d[-1] + 1) % 256], [d[0] ^ 0x80] + d[1:]]), form="bytes")
            x = r.randrange(1, len(self.w.objs) + 1)
            self.do(o="new", **{"from": [x]}, j=True, zero=self.w.rel(0))
            if r.random() < 0.6:
                self.do(o="write", x=len(self.w.objs), a=self.addr(len(self.w.objs)), d=[r.randrange(256)])
            for _ in range(steps + 6):
                self.queries(r.randrange(1, len(self.w.objs) + 1))
                m = r.random()
                x = r.randrange(1, len(self.w.objs) + 1)
                if m < 0.1:
                    self.rw(x)
                elif m < 0.25 and hasattr(self.w.objs[x - 1], "sections"):  # answers follow insertions, refused ones too
                    self.inserts(x)
        return self.ev


def main():
    args = parser().parse_args()
    if args.replay:
        return replay(args)
    out = Out(args.out)
    n = args.n or 50
    for i in range(n):
        g = Gen(args, i)
        out.put({"id": f"{args.focus}-{args.shard}-{i}", "base": str(g.base), "ev": g.history()})
    out.close()


if __name__ == "__main__":
    main()
