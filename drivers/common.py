"""Shared by the drivers: argument parsing, output, conversions between Python
values and the values of the specifications."""
import argparse
import json
import logging
import math
import random
import struct
import sys

logging.disable(logging.CRITICAL)  # the code under test reports every line it ignores


def parser():
    p = argparse.ArgumentParser()
    p.add_argument("--out", required=True)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--tier", default="quick")
    p.add_argument("--shard", type=int, default=0)
    p.add_argument("--shards", type=int, default=1)
    p.add_argument("--focus", default="")
    p.add_argument("--replay", default="")
    p.add_argument("--n", type=int, default=0)
    return p


def rng(args, salt=""):
    return random.Random(f"{args.seed}/{args.focus}/{args.shard}/{salt}")


class Out:
    def __init__(self, path):
        sys.excepthook = sys.__excepthook__  # objutils installs one of its own
        self.f = open(path, "w")
        self.n = 0

    def put(self, rec):
        self.f.write(json.dumps(rec, separators=(",", ":")) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def magnitude(n):
    n = abs(n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))


def num(n):
    """integer -> sign and magnitude (most significant byte first)"""
    return {"n": n < 0, "m": magnitude(n)}


def denum(v):
    n = int.from_bytes(bytes(v["m"]), "big")
    return -n if v["n"] else n


QNAN = [127, 248, 0, 0, 0, 0, 0, 0]


def flt(x):
    return {"f": QNAN if math.isnan(x) else list(struct.pack(">d", x))}


def unflt(v):
    return struct.unpack(">d", bytes(v["f"]))[0]


def val(x):
    """Python / numpy number -> value of the specification"""
    if isinstance(x, float) or type(x).__name__.startswith("float"):
        return flt(float(x))
    return num(int(x))


def unval(v):
    return unflt(v) if "f" in v else denum(v)


def hilo(n):
    return [(n >> 16) & 0xFFFF, n & 0xFFFF]
