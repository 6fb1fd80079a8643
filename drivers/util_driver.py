"""Utilities of objutils: checksums, hex dumps, differences, binary readers, the codec registry, singletons.

--focus checksum | dump | diff | reader | registry | singleton
  --replay FILE     transitions printed by ChecksumMC, DiffMC, BinReaderMC: outcome compared here
  --scenarios FILE  scenarios printed by HexDumpMC, RegistryMC, Singleton: outcome recorded
  otherwise         random cases, outcome recorded
"""
import array
import io
import json
import os
import re
import sys
import tempfile
import threading

from common import Out, num, parser, rng

import objutils
import objutils.checksums as cks
import objutils.utils
import objutils.registry
from objutils.hexdump import CanonicalDumper
from objutils.image import Image
from objutils.readers import PlainBinaryReader
from objutils.section import Section
from objutils.utils import SingletonBase
from objutils.utils.diff import diff_bin


def attempt(f):
    try:
        return "", f()
    except Exception as e:
        return type(e).__name__, None


regmod = sys.modules["objutils.registry"]  # objutils.registry is the Registry object

FORMS = {
    "list": list,
    "bytes": bytes,
    "bytearray": bytearray,
    "tuple": tuple,
    "memoryview": lambda d: memoryview(bytes(d)),
    "array": lambda d: array.array("B", d),
}


# ------------------------------------------------------------------ checksums
def checksum(frame, q):
    f = q["f"]
    if f == "check":
        return cks.check(frame, q["a"])
    if f == "lrc":
        return cks.lrc(frame, q["w"], q["c"])
    if f == "xor":
        return cks.xor(frame, bool(q["c"]))
    if f == "rotated":
        return cks.rotatedXOR(frame, q["w"], cks.ROTATE_RIGHT if q["c"] else cks.ROTATE_LEFT)
    return cks.nibble_sum(frame)


def halves(v):
    return [v >> 16, v & 0xFFFF]


UNIT = {"CHK_ADD_22": 2, "CHK_ADD_24": 2, "CHK_ADD_44": 4}
QUERIES = (
    [{"f": "check", "a": a} for a in ("CHK_ADD_11", "CHK_ADD_12", "CHK_ADD_14", "CHK_ADD_22", "CHK_ADD_24", "CHK_ADD_44", "CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32")]
    + [{"f": "lrc", "w": w, "c": c} for w in (1, 7, 8, 12, 15, 16, 17, 24, 31, 32) for c in range(3)]
    + [{"f": "xor", "c": 0}, {"f": "xor", "c": 1}, {"f": "nibble"}]
    + [{"f": "rotated", "w": w, "c": c} for w in (4, 7, 8) for c in (0, 1)]
)


def checksum_replay(out, t, k):
    frame = FORMS[list(FORMS)[k % len(FORMS)]](t["frame"])
    for e in t["res"]:
        x, r = attempt(lambda: checksum(frame, e["q"]))
        if x or halves(r) != e["r"]:
            return out.put({"mismatch": f"{e['q']} of {t['frame']}: {x or r}, expected {e['r']}", "key": "checksum " + e["q"].get("a", e["q"]["f"]), "want": e, "got": r})


def checksum_case(out, cid, r):
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 255, 256, 257, 600])
    n += r.choice([0, 0, 1, 2])
    m = r.randrange(4)
    d = [r.randrange(256) if m == 0 else r.choice([0, 255]) if m == 1 else 255 if m == 2 else r.choice([0, 0, 0, 1, 128]) for _ in range(n)]
    form = r.choice(list(FORMS))
    frame = FORMS[form](d)
    res = []
    for q in r.sample(QUERIES, 14):
        if n % UNIT.get(q.get("a"), 1):
            continue
        x, v = attempt(lambda: checksum(frame, q))
        res.append({"q": q, "x": x, "r": [0, 0] if x else halves(v)})
    out.put({"id": cid, "frame": d, "form": form, "same": list(frame) == d, "res": res})


# ------------------------------------------------------------------ hex dumps
LINE = re.compile(r"^(\S+)\s+((?:[0-9a-fA-F]{2}\s+)*)\s*\|(.*)\|$", re.S)


def codes(s):
    return [ord(c) for c in s]


def parse_dump(text):
    ls = []
    for line in text.split("\n"):
        s = line.strip()
        if not s or set(s) == {"-"}:
            continue
        m = re.match(r"^([0-9a-fA-F]+)\s+((?:[0-9a-fA-F]{2}\s+)*)\s*\|(.{0,64})\|$", line)
        n = re.match(r"^\s*(\d+) bytes$", line)
        if m:
            ls.append({"k": "row", "a": codes(m.group(1)), "b": [codes(p) for p in m.group(2).split()], "t": codes(m.group(3))})
        elif n:
            ls.append({"k": "len", "n": int(n.group(1))})
        elif s == "*":
            ls.append({"k": "*"})
        else:
            ls.append({"k": "?", "n": 0})
    return ls


def nibbles(a):
    return [int(c, 16) for c in f"{a:x}"]


def unnib(ns):
    return int("".join(f"{n:x}" for n in ns), 16)


def dump_run(secs, how, bits):
    """secs: [(address, bytes)] -> list of parsed dumps"""
    if how == "image":
        fp = io.StringIO()
        img = Image([Section(a, d) for a, d in secs], join=False)
        img.hexdump(fp)
        parts = re.split(r"\nSection #(\d+)\n-+\n", fp.getvalue())
        if parts[0] != "" or [int(x) for x in parts[1::2]] != list(range(len(secs))):
            raise ValueError("headings")
        return [parse_dump(p) for p in parts[2::2]]
    if how == "section":
        res = []
        for a, d in secs:
            fp = io.StringIO()
            Section(a, d).hexdump(fp)
            res.append(parse_dump(fp.getvalue()))
        return res
    res = []
    fp = io.StringIO()
    dumper = CanonicalDumper(fp, bits) if bits != 32 else CanonicalDumper(fp)
    for a, d in secs:
        s = len(fp.getvalue())
        dumper.dump_data(Section(a, d))
        res.append(parse_dump(fp.getvalue()[s:]))
    return res


def dump_case(out, cid, secs, how, bits):
    x, r = attempt(lambda: dump_run(secs, how, bits))
    out.put({"id": cid, "how": how, "bits": bits, "x": x, "secs": [{"a": nibbles(a), "d": list(d)} for a, d in secs], "res": r or []})


def dump_data(r):
    d = b""
    row = bytes(r.randrange(256) for _ in range(16))
    for _ in range(r.choice([0, 1, 2, 5, 9])):
        m = r.randrange(6)
        if m == 0:
            row = bytes(r.randrange(256) for _ in range(16))
        elif m == 1:
            row = bytes([r.choice([0, 0x20, 0x7E, 0x7F, 0x1F, 0xFF, 0x7C, 0x2A])]) * 16
        elif m == 2:
            k = r.randrange(16)
            row = row[:k] + bytes([row[k] ^ 1]) + row[k + 1:]
        d += row * r.choice([1, 1, 2, 3, 8])
    return d + row[: r.choice([0, 0, 1, 15, r.randrange(16)])]


def dump_random(out, cid, r):
    how = r.choice(["image", "section", "dumper", "dumper"])
    bits = r.choice([8, 16, 24, 32, 32, 40, 64]) if how == "dumper" else 32
    secs, a = [], r.choice([0, 0x10, 0xFFF8, 0xFFFFFFF0, 0xFFFFFFF8, 0x1_0000_0000, r.randrange(1 << 33), 0xFF, 5])
    for _ in range(r.choice([1, 1, 2, 3])):
        d = dump_data(r)
        if how == "image" and not d:
            d = b"x"
        secs.append((a, d))
        a += len(d) + r.choice([1, 3, 16, 0x1000])
    dump_case(out, cid, secs, how, bits)


# ---------------------------------------------------------------- differences
def entries(ds):
    return [{"t": d.type, "off": d.offset, "a": list(d.a) if d.a is not None else [], "b": list(d.b) if d.b is not None else []} for d in ds]


def diff_run(a, b, fa, fb):
    x, y = fa(a), fb(b)
    r = attempt(lambda: entries(diff_bin(x, y)))
    return r if bytes(x) == bytes(a) and bytes(y) == bytes(b) else ("arguments changed", None)


KINDS = (bytes, bytearray)
OTHERS = (list, tuple, memoryview)


def diff_replay(out, t, k):
    x, r = diff_run(bytes(t["a"]), bytes(t["b"]), KINDS[k % 2], KINDS[k // 2 % 2])
    if x or r != t["d"]:
        out.put({"mismatch": f"diff_bin({t['a']}, {t['b']}) gives {x or r}, expected {t['d']}", "key": "diff", "want": t, "got": r})


def diff_case(out, cid, r):
    n = r.choice([0, 1, 5, 40, 255, 256, 300, 700])
    a = bytearray(r.randrange(256) for _ in range(n))
    b = bytearray(a)
    for _ in range(r.randrange(6)):
        if b:
            p = r.choice([0, len(b) - 1, r.randrange(len(b))])
            for q in range(p, min(len(b), p + r.choice([1, 1, 2, 7]))):
                b[q] ^= r.choice([0, 1, 255, 128])
    m = r.randrange(4)
    if m == 0:
        b += bytes(r.randrange(256) for _ in range(r.choice([1, 2, 100])))
    elif m == 1:
        del b[max(0, len(b) - r.choice([1, 2, 100])):]
    elif m == 2 and r.random() < 0.3:
        b = bytearray(r.randrange(256) for _ in range(n))
    ka, kb = r.choice(KINDS), r.choice(KINDS)
    if r.random() < 0.15:
        ka = r.choice(OTHERS)
    if r.random() < 0.15:
        kb = r.choice(OTHERS)
    # equal bytes before both move every entry and change nothing else
    same = r.randbytes(r.choice([65530, 65536, 70000, 131072])) if r.random() < 0.06 else b""
    x, ds = diff_run(same + bytes(a), same + bytes(b), ka, kb)
    out.put({"id": cid, "shift": len(same), "a": list(a), "b": list(b), "ka": ka.__name__, "kb": kb.__name__, "x": x, "res": ds or []})


# -------------------------------------------------------------------- readers
def value(v):
    return {"s": codes(v)} if isinstance(v, str) else num(v)


PREFIX = {"le": ("<", "@", "="), "be": (">", "!")}


def reader_replay(out, t, k):
    rd = PlainBinaryReader(io.BytesIO(bytes(t["d"])), PREFIX[t["o"]][k % 2])
    rd.pos = t["p"]
    x, v = attempt(lambda: getattr(rd, t["op"])())
    good = (x != "") if not t["ok"] else (x == "" and value(v) == t["r"] and rd.pos == t["p2"])
    if not good or rd.size != len(t["d"]):
        out.put({"mismatch": f"{t['op']} at {t['p']} of {t['d']} ({t['o']}): {x or v}, position {rd.pos}; expected {t['r'] if t['ok'] else 'failure'}", "key": "reader " + t["op"], "want": t, "got": x or value(v)})


READS = ("u8", "u16", "u32", "u64", "s8", "s16", "s32", "s64", "uleb", "sleb", "asciiz", "next_byte")


def reader_case(out, cid, r):
    d = b""
    for _ in range(r.randrange(1, 12)):
        m = r.randrange(5)
        if m == 0:
            d += bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 8])))
        elif m == 1:
            d += bytes(r.choice([0, 1, 127, 128, 255]) for _ in range(r.choice([2, 4, 8])))
        elif m == 2:
            d += bytes(r.choice([128, 255, 129, r.randrange(128, 256)]) for _ in range(r.choice([0, 1, 4, 5, 9, 10, 20]))) + bytes([r.choice([0, 1, 63, 64, 127])])
        else:
            d += bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 3, 9, 40]))) + b"\0"
    order = r.choice(["le", "be"])
    path = None
    if r.random() < 0.3:
        fd, path = tempfile.mkstemp(dir=".")
        os.write(fd, d)
        os.close(fd)
        image = open(path, "rb")
    else:
        image = io.BytesIO(d)
    rd = PlainBinaryReader(image, r.choice(PREFIX[order]))
    ev = []
    for _ in range(r.randrange(1, 15)):
        m = r.randrange(12)
        if m == 0:
            rd.reset()
            ev.append({"op": "seek", "a": 0, "x": "", "r": num(0), "p": rd.pos})
        elif m == 1:
            a = r.randrange(len(d) + 1)
            rd.pos = a
            ev.append({"op": "seek", "a": a, "x": "", "r": num(0), "p": rd.pos})
        else:
            op = r.choice(READS)
            x, v = attempt(lambda: getattr(rd, op)())
            ev.append({"op": op, "a": 0, "x": x, "r": num(0) if x else value(v), "p": rd.pos})
            if x:
                a = r.randrange(len(d) + 1)
                rd.pos = a
                ev.append({"op": "seek", "a": a, "x": "", "r": num(0), "p": rd.pos})
    image.close()
    if path:
        os.unlink(path)
    out.put({"id": cid, "d": list(d), "o": order, "size": rd.size, "ev": ev})


# ------------------------------------------------------------------- registry
def stub(k):
    class Reader:
        ident = k

        def loads(self, image, *args, **kws):
            return k

        def load(self, fp, *args, **kws):
            return k

    class Writer:
        ident = k

        def dumps(self, image, *args, **kws):
            return k

        def dump(self, fp, image, *args, **kws):
            return k

    return Reader, Writer


BUILTIN = None  # codecs of the library: [(name, codec)]
EARLIER = set()  # names registered by earlier cases


def registry_run(out, cid, ops, prefix):
    global BUILTIN
    rg = regmod.Registry()
    if BUILTIN is None:
        BUILTIN = [(n, c) for n, c in rg]
    ids = {c.Reader: -k - 1 for k, (n, c) in enumerate(BUILTIN)}
    codecs = {}
    ev = []

    def ident(c):
        assert c.Reader in ids and (ids[c.Reader] < 0 or (c.Writer is codecs[ids[c.Reader]][1] and c.description == f"codec {ids[c.Reader]}"))
        return ids[c.Reader]

    for op in ops:
        op = dict(op)
        name = ""
        if "n" in op:
            name = bytes(op["n"]).decode()
            if not op.pop("full", False):
                name = (prefix if len(ev) % 2 else prefix.upper()) + name
            if name.lower() in EARLIER:
                continue
            op["n"] = codes(name)
        o = op["o"]
        if o == "register":
            k = len(codecs) + 1
            codecs[k] = stub(k)
            ids[codecs[k][0]] = k
            op["id"] = k

        def do():
            if o == "register":
                R, W = codecs[op["id"]]
                rg.register(name, R, W, f"codec {op['id']}")
                assert R.codecName == W.codecName
                return codes(R.codecName)
            if o == "get":
                return ident(rg.get(name))
            if o == "dumps":
                return objutils.dumps(name, Image([Section(0, b"a")]))
            if o == "loads":
                return objutils.loads(name, b"")
            if o == "formats":
                return [codes(n) for n in rg.formats if n not in EARLIER]
            if o == "iter":
                return [{"n": codes(n), "id": ident(c)} for n, c in rg if n not in EARLIER]
            if o == "new":
                return regmod.Registry() is rg and regmod.registry is rg

        x, v = attempt(do)
        touched = bool(x) and o == "register" and any(hasattr(k, "codecName") for k in codecs[op["id"]])
        ev.append({"op": op, "x": x, "r": 0 if x else v, "t": touched})
    EARLIER.update(n for n, c in rg if ids.get(c.Reader, 0) > 0)
    out.put({"id": cid, "start": [{"n": codes(n), "id": ids[c.Reader]} for n, c in BUILTIN], "ev": ev})


def near(r, name):
    """names close to that of a codec of the library"""
    m = r.randrange(9)
    return [name, name.upper(), name.title(), name[:-1], name + "x", name + "_32", " " + name, name + " ", "." + name][m]


def registry_random(out, cid, r, prefix):
    names = [b"a", b"B", b"b", b"ab", b"A-1", b"zz_9", b"Aa"]
    ops = []
    for _ in range(r.randrange(3, 25)):
        o = r.choice(["register"] * 3 + ["get", "get", "dumps", "loads", "formats", "iter", "new"])
        op = {"o": o}
        if o in ("register", "get", "dumps", "loads"):
            op["n"] = list(r.choice(names))
            if o == "get" and r.random() < 0.5 or o == "register" and r.random() < 0.2:
                n = near(r, r.choice(BUILTIN)[0] if BUILTIN else "ihex")
                if o == "get" or n.lower() == n.lower().strip() and len(n) > 2 and any(n.lower() == b for b, _ in BUILTIN or []):
                    op.update(n=codes(n), full=True)
        ops.append(op)
    registry_run(out, cid, ops, prefix)


# ----------------------------------------------------------------- singletons
FILE = objutils.utils.__file__


class Stepper:
    """Runs threads one traced line (or bytecode) of objutils.utils at a time."""

    def __init__(self, bodies, fine):
        self.fine = fine
        self.cv = threading.Condition()
        n = len(bodies)
        self.go = [False] * n
        self.parked = [False] * n
        self.done = [False] * n
        self.threads = [threading.Thread(target=self.body, args=(k, b), daemon=True) for k, b in enumerate(bodies)]

    def body(self, k, b):
        def local(frame, event, arg):
            if event == ("opcode" if self.fine else "line"):
                self.park(k)
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename != FILE:
                return None
            frame.f_trace_opcodes = self.fine
            frame.f_trace_lines = not self.fine
            return local

        self.park(k)
        sys.settrace(glob)
        try:
            b()
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[k] = True
                self.cv.notify_all()

    def park(self, k):
        with self.cv:
            self.parked[k] = True
            self.cv.notify_all()
            while not self.go[k]:
                self.cv.wait()
            self.go[k] = False
            self.parked[k] = False

    def step(self, k):
        """let thread k reach its next line; False if it is not waiting for that"""
        with self.cv:
            if self.done[k] or not self.parked[k]:
                return False
            self.go[k] = True
            self.parked[k] = False
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.done[k] or (self.parked[k] and not self.go[k]), timeout=0.01)
            return True

    def run(self, schedule, limit=8.0):
        for t in self.threads:
            t.start()
        with self.cv:
            self.cv.wait_for(lambda: all(self.parked), timeout=limit)
        for k in schedule:
            self.step(k)
        idle = 0
        while not all(self.done):
            moved = [self.step(k) for k in range(len(self.threads))]
            if not any(moved):
                idle += 1
                if idle > 300:
                    return False
                with self.cv:
                    self.cv.wait(0.01)
            else:
                idle = 0
        return True


def singleton_run(out, cid, cls, schedule, calls, fine=False):
    First = type("First", (SingletonBase,), {})
    Second = type("Second", (First,), {})
    classes = {1: First, 2: Second}
    log = []

    def body(k):
        def f():
            for _ in range(calls):
                c = classes[cls[k]]
                try:
                    log.append((k + 1, cls[k], c(), ""))
                except Exception as e:
                    log.append((k + 1, cls[k], None, type(e).__name__))

        return f

    s = Stepper([body(k) for k in range(len(cls))], fine)
    ok = s.run([t - 1 for t in schedule])
    ids = []

    def ident(o):
        for i, p in enumerate(ids):
            if p is o:
                return i + 1
        ids.append(o)
        return len(ids)

    got = [{"t": t, "c": c, "i": 0 if o is None else ident(o), "k": {First: 1, Second: 2}.get(type(o), 0), "x": x} for t, c, o, x in log]
    out.put({"id": cid, "cls": cls, "calls": calls, "finished": ok, "got": got})


def main():
    p = parser()
    p.add_argument("--scenarios", default="")
    p.add_argument("--calls", type=int, default=1)
    args = p.parse_args()
    out = Out(args.out)
    f = args.focus
    src = args.replay or args.scenarios
    if src:
        n = 0
        with open(src) as g:
            for k, line in enumerate(g):
                if k % args.shards != args.shard:
                    continue
                t = json.loads(line)
                n += 1
                if f == "checksum":
                    checksum_replay(out, t, k)
                elif f == "diff":
                    diff_replay(out, t, k)
                elif f == "reader":
                    reader_replay(out, t, k)
                elif f == "dump":
                    how = ("dumper", "section", "image")[k % 3]
                    secs = [(unnib(s["a"]), bytes(s["d"])) for s in t["secs"]]
                    if how == "image" and (not all(d for _, d in secs) or secs[0][0] > secs[1][0] or secs[0][0] + len(secs[0][1]) > secs[1][0]):
                        how = "dumper"
                    dump_case(out, f"s{k}", secs, how, 32)
                elif f == "registry":
                    registry_run(out, f"h{k}", t["ops"], f"vt{k}_")
                elif f == "singleton":
                    singleton_run(out, f"s{k}", t["cls"], t["h"], args.calls)
        if args.replay:
            out.put({"n": n})
        out.close()
        return
    for i in range(args.n):
        cid = f"{f}{args.shard}.{i}"
        r = rng(args, i)
        if f == "checksum":
            checksum_case(out, cid, r)
        elif f == "dump":
            dump_random(out, cid, r)
        elif f == "diff":
            diff_case(out, cid, r)
        elif f == "reader":
            reader_case(out, cid, r)
        elif f == "registry":
            registry_random(out, cid, r, f"vt{args.shard}x{i}_")
        elif f == "singleton":
            n = r.choice([2, 2, 3])
            cls = [r.choice([1, 1, 2]) for _ in range(n)]
            sched = []
            while len(sched) < 60:
                sched += [r.randrange(n) + 1] * r.choice([1, 1, 2, 5, 12])
            singleton_run(out, cid, cls, sched, r.choice([1, 2]), fine=True)
    out.close()


if __name__ == "__main__":
    main()
