"""Helpers of objutils.utils.

--scenarios FILE  arguments printed by TLC (HelpersMC.tla)
otherwise         random arguments
"""
import ctypes
import enum
import json
import os
import shutil
import tempfile

from common import Out, magnitude, parser, rng

from objutils import utils
from objutils.section import filler


class Colour(enum.IntEnum):
    RED = 0
    GREEN = 1
    BLUE = 2


MAP = [[int(x), x.name] for x in Colour]


class Single(utils.StructureWithEnums):
    _fields_ = [("pad", ctypes.c_uint16), ("a", ctypes.c_uint8), ("b", ctypes.c_uint8), ("c", ctypes.c_uint8)]
    _map = {"a": Colour, "b": Colour, "c": Colour}


class Array(utils.StructureWithEnums):
    _fields_ = [("v", ctypes.c_uint8 * 3), ("plain", ctypes.c_uint32)]
    _map = {"v": Colour}


ARGS = {"int": lambda v: v[0], "list": list, "tuple": tuple, "bytes": bytes, "range": lambda v: range(len(v)), "iter": iter, "gen": lambda v: (x for x in v),
        "map": lambda v: map(int, v), "bytearray": bytearray, "view": lambda v: memoryview(bytes(v)), "dict": lambda v: dict.fromkeys(v)}
CONV = {"bytes": bytes, "bytearray": bytearray, "list": list, "tuple": tuple, "str": lambda d: "".join(map(chr, d)), "conv": list}


AS = {"int": int, "float": float, "bytes": lambda v: bytes([v & 255]), "none": lambda v: None}


def ints(d):
    return [ord(c) if isinstance(c, str) else c for c in d]


def work(t, tmp):
    op = t["op"]
    if op in ("ffs", "int_to_array"):
        v = int.from_bytes(bytes(t["v"]), "big")
        v = -v if t.get("neg") else v  # the lowest bit is the same
        r = getattr(utils, op)(v)
        return {"r": r if op == "ffs" else list(r)}
    if op == "slicer":
        d = CONV[t["kind"]](t["d"])
        if t["kind"] == "conv":
            r = utils.slicer(d, t["n"], lambda x: tuple(x))
            return {"r": [list(x) for x in r], "same": all(type(x) is tuple for x in r)}
        r = utils.slicer(d, t["n"], (lambda x: "".join(x)) if t["kind"] == "str" and len(d) % 2 else None)
        return {"r": [ints(x) for x in r], "same": all(type(x) is type(d) for x in r)}
    if op == "make_list":
        return {"r": utils.make_list(*[ARGS[x["it"]](x["v"]) for x in t["args"]])}
    if op == "cygpath":
        return {"r": ints(utils.cygpath_to_win("".join(map(chr, t["d"]))))}
    if op == "extract":
        p = os.path.join(tmp, "f")
        with open(p, "wb") as f:
            f.write(bytes(t["d"]))
        return {"r": list(utils.bin_extractor(p, t["o"], t["n"]))}
    if op == "filler":
        r = filler(AS[t["ch"]["ty"]](t["ch"]["v"]), AS[t["n"]["ty"]](t["n"]["v"]))
        return {"r": list(r) if type(r) is bytearray else ["not a bytearray"]}
    if op == "buffer":
        return {"r": list(utils.create_string_buffer(bytes(t["d"])).read())}
    if op == "curry":
        c = utils.Curry(lambda *a, **k: (list(a), [[x, y] for x, y in k.items()]), *t["pend"], **dict(t["kw"]))
        calls = []
        for q in t["calls"]:
            a, k = c(*q["a"], **dict(q["kw"]))
            calls.append(dict(q, ra=a, rk=k))
        return {"calls": calls}
    if op == "view":
        p = os.path.join(tmp, "v")
        with open(p, "wb") as f:
            f.write(bytes(t["d"]))
        v = utils.create_memorymapped_fileview(p, t["w"])
        seen, refused = list(v), 0
        for w in t["ws"]:
            try:
                v[w["o"] : w["o"] + len(w["d"])] = bytes(w["d"])
            except TypeError:
                refused += 1
        after = list(v)
        m = v.obj
        v.release()
        m.close()
        with open(p, "rb") as f:
            return {"seen": seen, "refused": refused, "after": after, "r": list(f.read())}
    if op == "enums":
        vs = (t["vs"] + [0, 1, 2])[:3]
        if t["arr"]:
            s = Array((ctypes.c_uint8 * 3)(*vs), 77)
            try:
                r = [{"v": v, "x": "", "r": x.name} for v, x in zip(vs, s.v)]
            except ValueError:
                r = [{"v": v, "x": "ValueError", "r": ""} for v in vs if v > 2]
            assert s.plain == 77
        else:
            s, r = Single(99, *vs), []
            for n, v in zip("abc", vs):
                try:
                    r.append({"v": v, "x": "", "r": getattr(s, n).name})
                except ValueError as e:
                    r.append({"v": v, "x": "ValueError", "r": ""})
            assert s.pad == 99
        return {"f": r, "map": MAP}


def case(out, t, tmp):
    try:
        r = work(t, tmp)
        out.put(dict(t, x="", **r) if t["op"] != "curry" else dict(t, x="", calls=r["calls"]))
    except Exception as e:
        out.put(dict(t, x=type(e).__name__))


def rand(q):
    b = lambda n: [q.randrange(256) for _ in range(n)]
    op = q.choice(["ffs", "int_to_array", "slicer", "make_list", "cygpath", "extract", "curry", "view", "filler"])
    if op == "filler":
        return {"op": op, "ch": {"ty": "int", "v": q.choice([q.randrange(256), q.randrange(-9, 300)])}, "n": {"ty": "int", "v": q.choice([q.randrange(1, 60), q.randrange(-3, 3)])}}
    if op in ("ffs", "int_to_array"):
        v = q.choice([q.randrange(1 << q.randrange(1, 200)), 1 << q.randrange(150), 3 << q.randrange(70)])
        return {"op": op, "v": magnitude(v)} | ({"neg": True} if op == "ffs" and q.random() < 0.3 else {})
    if op == "slicer":
        k = q.choice(list(CONV))
        return {"op": op, "d": b(q.randrange(200)), "n": q.choice([1, 2, 3, 7, 8, 16, 100, 200]), "kind": k}
    if op == "make_list":
        a = []
        for _ in range(q.randrange(6)):
            it = q.choice(list(ARGS))
            n = 1 if it == "int" else q.randrange(6)
            a.append({"it": it, "v": list(range(n)) if it == "range" else sorted(set(b(n))) if it == "dict" else b(n)})
        return {"op": op, "args": a}
    if op == "cygpath":
        s = "".join(q.choice(["/", "a", "B", "\\", " ", ".", "é", "cygdrive", "/cygdrive/"]) for _ in range(q.randrange(8)))
        p = q.choice(["/cygdrive/", "/cygdrive/", "", "/", "/CYGDRIVE/", "x/cygdrive/"]) + q.choice("cdZ") + q.choice(["", "/" + s])
        return {"op": op, "d": [ord(c) for c in p]}
    if op == "extract":
        n = q.randrange(300)
        return {"op": op, "d": b(n), "o": q.randrange(n + 3), "n": q.randrange(n + 3)}
    if op == "curry":
        kw = lambda: [[k, q.randrange(9)] for k in q.sample("abcd", q.randrange(4))]
        return {"op": op, "pend": b(q.randrange(4)), "kw": kw(), "calls": [{"a": b(q.randrange(4)), "kw": kw()} for _ in range(q.randrange(1, 5))]}
    n = q.choice([1, 5, 100, 4096, 5000])
    ws = []
    for _ in range(q.randrange(4)):
        o = q.randrange(n)
        ws.append({"o": o, "d": b(q.randint(1, min(20, n - o)))})
    return {"op": op, "d": b(n), "w": q.random() < 0.7, "ws": ws}


def main():
    p = parser()
    p.add_argument("--scenarios", default="")
    a = p.parse_args()
    out, q = Out(a.out), rng(a)
    tmp = tempfile.mkdtemp(prefix="helpers-")
    try:
        if a.scenarios:
            with open(a.scenarios) as f:
                for k, line in enumerate(f):
                    if k % a.shards == a.shard:
                        case(out, json.loads(line), tmp)
        else:
            for _ in range(a.n):
                case(out, rand(q), tmp)
    finally:
        shutil.rmtree(tmp)
    out.close()


main()
