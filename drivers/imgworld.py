"""Executes the operations of ImageModel.tla on real Image and Section objects."""
import io
import sys
from array import array

import numpy as np
from common import unval, val

from objutils import Image, Section
import objutils

NP = {"u": "u", "s": "i", "f": "f"}
LIM = 1 << 29


def npdtype(t):
    name, bo = t.rsplit("_", 1)
    return np.dtype(name).newbyteorder("<" if bo == "le" else ">")


def shape_data(d, form):
    """the same bytes, as one of the types accepted by the API"""
    if form == "int":
        return -d[0]
    b = bytes(x & 0xFF for x in d) if all(0 <= x < 256 for x in d) else None
    if b is None:
        return list(d)
    if form == "bytearray":
        return bytearray(b)
    if form == "list":
        return list(b)
    if form == "tuple":
        return tuple(b)
    if form == "array":
        return array("B", b)
    if form == "array16" and len(b) % 2 == 0:
        a = array("H")
        a.frombytes(b)
        return a
    if form == "memoryview":
        return memoryview(b)
    if form == "memoryview16" and len(b) % 2 == 0:
        return memoryview(b).cast("H")
    if form == "numpy16" and len(b) % 2 == 0:
        return np.frombuffer(b, dtype="<u2")
    if form == "iter":
        return iter(list(b))
    if form == "stride":  # every other byte of a buffer
        return memoryview(bytes(y for x in b for y in (x, 0xEE)))[::2]
    if form == "npstride":
        return np.frombuffer(bytes(y for x in b for y in (x, 0xEE)), dtype=np.uint8)[::2]
    if form == "backwards":
        return memoryview(b[::-1])[::-1]
    if form == "numpy":
        return np.frombuffer(b, dtype=np.uint8)
    if form == "section":
        return Section(77, bytearray(b))
    if form == "str" and all(x < 128 for x in b):
        return b.decode("ascii")
    return b


class Kept:
    """what a read returned"""

    def __init__(self, buf):
        self.buf = buf


class World:
    def __init__(self, base):
        self.base = base
        self.objs = []

    # -------------------------------------------------------------- building
    def load(self, objs):
        for o in objs:
            secs = [Section(self.base + s["a"], bytearray(s["d"])) if s["d"] else Section(self.base + s["a"]) for s in o["s"]]
            self.objs.append(Kept(bytearray(secs[0].data)) if o["k"] == "buf" else Image(secs, join=False) if o["k"] == "img" else secs[0])
        return self

    def secs(self, o):
        return [o] if isinstance(o, Section) else list(o.sections)

    def snap_sec(self, s):
        return {"a": self.rel(s.start_address), "d": list(bytes(s.data))}

    def snap(self):
        return [[{"a": 0, "d": list(bytes(o.buf))}] if isinstance(o, Kept) else [self.snap_sec(s) for s in self.secs(o)] for o in self.objs]

    def rel(self, a):
        r = a - self.base
        return r if -LIM < r < LIM else -LIM

    # ------------------------------------------------------------- operating
    def run(self, op):
        try:
            r, x = self.do(op), ""
        except Exception as e:  # the class is what the specification talks about
            names = [k.__name__ for k in type(e).__mro__]
            r, x = [], "InvalidAddressError" if "InvalidAddressError" in names else type(e).__name__
        return {"op": op, "x": x, "r": [] if r is None else r, "w": self.snap()}

    def do(self, op):
        k = op["o"]
        t = op.get("t", "")
        t = {"upper": t.upper(), "title": t.title(), "space": f" {t} "}.get(op.get("sp"), t)
        a = self.base + op["a"] if "a" in op else None
        o = self.objs[op["x"] - 1] if "x" in op and op["x"] <= len(self.objs) else None
        if k == "read":
            return list(o.read(a, op["n"]))
        if k == "keep":
            self.objs.append(Kept(o.read_ndarray(a, op["n"], "uint8_le", (op["n"],)) if op["how"] == "nd" else o.read(a, op["n"])))
            return
        if k == "poke":
            try:
                o.buf[op["p"]] = op["v"]
            except (TypeError, ValueError):  # immutable: the client has to copy
                o.buf = bytearray(bytes(o.buf))
                o.buf[op["p"]] = op["v"]
            return
        if k == "write":
            return o.write(a, shape_data(op["d"], op.get("form")))
        if k == "rn":
            kw = {"bit_mask": int.from_bytes(bytes(op["mask"]), "big") - ((1 << 96) if op.get("neg") else 0)} if "mask" in op else {}
            return val(o.read_numeric(a, t, **kw))
        if k == "wn":
            return o.write_numeric(a, unval(op["v"]), t)
        if k == "rna":
            return [val(v) for v in o.read_numeric_array(a, op["n"], t)]
        if k == "wna":
            vs = [unval(v) for v in op["v"]]
            return o.write_numeric_array(a, tuple(vs) if op.get("form") == "tuple" else vs, t)
        if k == "rs":
            e = op.get("es", op["e"])
            if e == "":  # the default
                return [ord(ch) for ch in (o.read_string(a, length=op["n"]) if op["n"] >= 0 else o.read_string(a))]
            return [ord(ch) for ch in (o.read_string(a, e, op["n"]) if op["n"] >= 0 else o.read_string(a, e))]
        if k == "ws":
            e = op.get("es", op["e"])
            return o.write_string(a, "".join(map(chr, op["c"])), *([e] if e else []))
        if k == "rnd":
            r = o.read_ndarray(a, op["n"], t, tuple(op["sh"]), op["ord"])
            return {"sh": list(r.shape), "v": [val(v) for v in r.flatten(order="C")]}
        if k == "wnd":
            arr = np.array([unval(v) for v in op["v"]], dtype=npdtype(op["t"])).reshape(tuple(op["sh"]))
            if op.get("lay") == "F":
                arr = np.asfortranarray(arr)
            return o.write_ndarray(a, arr)
        if k == "ins":
            if "src" in op:  # a section of the client, or its buffer
                d = self.objs[op["src"] - 1]
                d = d.data if op.get("form") == "buffer" else d
            else:
                d = shape_data(op["d"], op.get("form"))
            if a is None:
                return o.insert_section(d, join=op["j"])
            return o.insert_section(d, a, op["j"])
        if k == "join":
            return o.join_sections()
        if k == "has":
            return a in o
        if k == "len":
            return len(o)
        if k == "get":
            return self.snap_sec(o.get_section(a))
        if k == "item":
            return self.snap_sec(o[op["n"]])
        if k == "iter":
            return [self.snap_sec(s) for s in o]
        if k == "eq":
            p = self.objs[op["y"] - 1]
            e, n = o == p, o != p
            if e is n:
                raise AssertionError("== and != agree")
            return e
        if k == "find":
            return [[self.rel(x), n] for x, n in o.find(bytes(op["p"]))]
        if k == "ext":
            o.data.extend(bytes(op["d"]))
            return
        if k == "cmp":
            p = self.objs[op["y"] - 1]
            if (o != p) is (o == p):
                raise AssertionError("== and != agree")
            return [o < p, o <= p, o == p, o >= p, o > p]
        if k == "sec":
            if "src" in op:
                self.objs.append(Section(a, self.objs[op["src"] - 1]))
                return
            if not op["d"] and "form" not in op:
                self.objs.append(Section(a))
                return
            self.objs.append(Section(a, shape_data(op["d"], op.get("form"))))
            return
        if k == "new":
            src = [s for i in op["from"] for s in self.secs(self.objs[i - 1])]
            form = op.get("form")
            if form == "single" and len(src) == 1 and len(src[0]):
                src = src[0]
            elif form == "tuple":
                src = tuple(src)
            elif form == "image" and len(op["from"]) == 1 and isinstance(self.objs[op["from"][0] - 1], Image):
                src = self.objs[op["from"][0] - 1].sections
            self.objs.append(Image(src, join=op["j"]))
            return
        if k == "hexdump":
            o.hexdump(io.StringIO())
            return
        if k == "repr":
            repr(o)
            return
        if k == "dumps":
            try:
                objutils.dumps(op.get("fmt", "shf"), o)
            except Exception:  # noqa: S110 - address out of the format's range; irrelevant here
                pass
            return
        if k == "tobytes":
            for s in self.secs(o):
                s.tobytes(), s.tolist()
            return
        raise SystemExit(f"VT-DRIVER-BROKEN: unknown op {k}")
