"""The command line tools of objutils.scripts: what they print and write.

--focus hexinfo            oj-hex-info on files of every format
        extract            oj-elf-extract on random ELF files
        show               oj-elf-info, oj-elf-syms, oj-elf-arm-attrs on random ELF files
        cc                 all of them on files of the system's compilers, for many processors
--scenarios FILE --focus F files and queries (ElfMC.tla) printed by TLC
Every run of a tool is a process of its own in a scratch directory.
"""
import importlib
import json
import os
import pickle
import re
import shutil
import struct
import sys
import tempfile

import compiled
import elf_driver as ED
import hex_driver as HD
from common import Out, parser, rng
from elf_driver import listed, pattern, rand_query, txt, v8
from elfbuild import DEBUG, NAMES, SYMS, TYPES, Build
from util_driver import codes, parse_dump

TOOLS = {}
NULL = os.open(os.devnull, os.O_WRONLY)


def tool(name, argv, cwd):
    """-> exit status, text printed, exception"""
    if name not in TOOLS:
        TOOLS[name] = importlib.import_module("objutils.scripts.oj_" + name)
    rd, wr = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        res = (99, "", "")
        try:
            os.chdir(cwd)
            sys.argv = ["oj-" + name.replace("_", "-"), *argv]
            code, x = 0, ""
            with tempfile.TemporaryFile() as o:
                os.dup2(o.fileno(), 1)  # whatever object the tool takes for standard output
                os.dup2(NULL, 2)
                try:
                    TOOLS[name].main()
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                    x = f"exit {code}"
                except BaseException as e:
                    code, x = 1, f"{type(e).__name__}: {e}"[:160]
                sys.stdout.flush()
                o.seek(0)
                res = (code, o.read().decode("utf-8", "surrogateescape"), x)
        finally:
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        blob = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(blob)
    if res[0] == 99:
        raise AssertionError("VT-DRIVER-BROKEN " + name)
    return res


# --------------------------------------------------------- text -> structure
RULE = re.compile(r"^-{20,}$")


def shown(s):
    """a name, or the number of something that has no name"""
    m = re.fullmatch(r"0x([0-9a-fA-F]+)", s)
    return {"s": "", "n": v8(int(m[1], 16))} if m and int(m[1], 16) < 1 << 64 else {"s": s, "n": []}


def hx(s):
    return v8(int(s, 16))


def read_hexinfo(text):
    out = {"rows": [], "total": -1, "dumps": [], "stray": False}
    parts = re.split(r"\nSection #(\d+)\n-+\n", text)
    seen = 0
    for line in parts[0].split("\n"):
        if RULE.match(line):
            seen += 1
            continue
        m = re.fullmatch(r"(\d+) +0x([0-9a-fA-F]+) (\d+)", line)
        n = re.fullmatch(r" *(\d+) total bytes", line)
        if seen == 1 and m:
            out["rows"].append({"i": int(m[1]), "a": [int(c, 16) for c in m[2]], "n": int(m[3])})
        elif seen == 2 and n and out["total"] < 0:
            out["total"] = int(n[1])
        elif seen and line.strip():
            out["stray"] = True
    if [int(x) for x in parts[1::2]] != list(range(len(parts) // 2)):
        out["stray"] = True
    out["dumps"] = [parse_dump(p) for p in parts[2::2]]
    return out


def read_extract(text):
    out = {"rows": [], "total": -1, "stray": False}
    seen = 0
    for line in text.split("\n"):
        if RULE.match(line):
            seen += 1
            continue
        m = re.fullmatch(r"(.*) 0x([0-9a-fA-F]+) (\d+)", line)
        n = re.match(r"HEX image written to: .* \[(\d+) total bytes\]$", line)
        if seen == 1 and m:
            out["rows"].append({"name": txt(m[1].rstrip()), "a": hx(m[2]), "n": int(m[3])})
        elif seen == 2 and n and out["total"] < 0:
            out["total"] = int(n[1])
        elif seen and line.strip():
            out["stray"] = True
    return out


def headed(lines):
    """lines -> [(heading or None, lines below it)]"""
    out, k, cur = [], 0, (None, [])
    while k < len(lines):
        if k + 2 < len(lines) and lines[k + 1] is not None and set(lines[k]) <= {"="} and lines[k] == lines[k + 2] and len(lines[k]) == len(lines[k + 1]) and not set(lines[k + 1]) == {"="} and (lines[k] or k and lines[k - 1] == ""):
            if lines[k] or lines[k + 1] == "" and k + 4 < len(lines) and lines[k + 3] == "" and lines[k + 4] == "Name":  # an empty heading
                out.append(cur)
                cur = (lines[k + 1], [])
                k += 3
                continue
        cur[1].append(lines[k])
        k += 1
    return [*out, cur]


def read_syms(text):
    out = {"groups": [], "stray": False}
    q = headed(text.split("\n"))
    for head, body in q[1:]:
        try:
            k = next(i for i, x in enumerate(body) if RULE.match(x)) + 1
        except StopIteration:
            out["stray"] = True
            continue
        rows = []
        rest = body[k:]
        while rest and rest[-1] == "":
            rest.pop()
        while rest:
            m = re.fullmatch(r"([0-9a-fA-F]{8,}) +(\d+) +(\S+) +(\S+) +([A ])([W ])([X ])", rest[1]) if len(rest) > 1 else None
            if not m:
                out["stray"] = True
                break
            rows.append({"name": txt(rest[0].rstrip(" ")), "value": hx(m[1]), "size": v8(int(m[2])), "bind": shown(m[3]), "type": shown(m[4]), "a": m[5] == "A", "w": m[6] == "W", "x": m[7] == "X"})
            rest = rest[3:] if len(rest) > 2 and rest[2] == "" else rest[2:]
        out["groups"].append({"key": txt(head), "rows": rows})
    return out


def read_info(text):
    out = {"cls": "", "data": "", "type": shown(""), "abi": shown(""), "abiver": v8(0), "machine": shown(""), "avr": {"mach": -1, "relax": False}, "secs": [], "segs": [], "comment": [], "notes": [], "stray": False}
    q = headed(text.split("\n"))
    for line in q[0][1]:
        key, _, val = line.partition(" ")
        val = val.strip()
        if key == "Class:":
            out["cls"] = val
        elif key == "Data:":
            out["data"] = val
        elif key == "Type:":
            out["type"] = shown(val.split(" ")[0])
        elif key == "Machine:":
            out["machine"] = shown(val.split(" ")[0])
            m = re.search(r"\[avr:(\d+)", val)
            out["avr"] = {"mach": int(m[1]) if m else -1, "relax": "link-relax" in val}
        elif key == "OS/ABI":
            m = re.fullmatch(r"(\S+) / v(\d+)", val)
            if m:
                out["abi"], out["abiver"] = shown(m[1]), v8(int(m[2]))
    for head, body in q[1:]:
        rows, ruled = [], False
        for x in body:
            if RULE.match(x):
                ruled = True
            elif ruled:
                rows.append(x)
        if head == "Sections":
            for x in rows:
                m = re.fullmatch(r"(.*) (\S+) +([0-9a-fA-F]{8,}) ([0-9a-fA-F]{8,}) ([0-9a-fA-F]{6,}) +(\d+)", x)
                if m:
                    out["secs"].append({"name": txt(m[1].rstrip(" ")), "type": shown(m[2]), "a": hx(m[3]), "off": hx(m[4]), "size": hx(m[5]), "align": v8(int(m[6]))})
                elif x.strip():
                    out["stray"] = True
        elif head == "Segments":
            for x in rows:
                m = re.fullmatch(r"(\S+) +0x([0-9a-fA-F]+) 0x([0-9a-fA-F]+) 0x([0-9a-fA-F]+) 0x([0-9a-fA-F]+) 0x([0-9a-fA-F]+) ([R-])([W-])([X-]) +(\d+)", x)
                if m:
                    out["segs"].append({"type": shown(m[1]), "off": hx(m[2]), "va": hx(m[3]), "pa": hx(m[4]), "fs": hx(m[5]), "ms": hx(m[6]), "r": m[7] == "R", "w": m[8] == "W", "x": m[9] == "X", "align": v8(int(m[10]))})
                elif x.startswith("SIZE-INFO"):
                    break  # what follows is debug information
                elif x.strip():
                    out["stray"] = True
        elif head == ".comment" and not ruled:
            out["comment"] = txt("\n".join(body).strip("\n"))
        else:
            for x in rows:
                m = re.fullmatch(r" *(\d+) (.{15,}?) ([0-9a-fA-F]*)", x)
                if m:
                    out["notes"].append({"section": txt(head), "type": v8(int(m[1])), "name": txt(m[2].rstrip(" ")), "desc": list(bytes.fromhex(m[3]))})
                elif x.startswith("SIZE-INFO"):
                    break
                elif x.strip():
                    out["stray"] = True
    return out


def read_arm(text):
    out = {"groups": [], "stray": False}
    for head, body in headed(text.split("\n"))[1:]:
        try:
            k = next(i for i, x in enumerate(body) if RULE.match(x)) + 1
        except StopIteration:
            out["stray"] = True
            continue
        rows, rest = [], body[k:]
        while len(rest) > 2:
            if rest[2] != "":
                out["stray"] = True
                break
            m = re.fullmatch(r"(.*?) +\((\d+), '(.*)'\)", rest[0])
            if m:
                rows.append({"name": m[1], "n": v8(int(m[2])), "s": txt(m[3])})
            else:
                name, _, val = rest[0].rpartition(" ")
                num = val.isdigit()
                rows.append({"name": name.rstrip(" "), "n": v8(int(val)) if num else [], "s": [] if num else txt(val)})
            rest = rest[3:]
        out["groups"].append({"vendor": txt(head), "rows": rows})
    return out


# ------------------------------------------------------------------ the tools
EMPTY = {"extract": {"rows": [], "total": -1, "stray": False}, "syms": {"groups": [], "stray": False}, "arm": {"groups": [], "stray": False}, "info": {}, "hexinfo": {"rows": [], "total": -1, "dumps": [], "stray": False}}


def said(fn, text, code, k):
    """the structure of what was printed"""
    try:
        return fn(text)
    except (ValueError, IndexError, OverflowError):
        if code:
            return EMPTY[k]
        return {**EMPTY[k], "stray": True}


def written(path, fmt):
    """-> there, lines, blocks"""
    if not os.path.exists(path):
        return False, [], []
    with open(path, "rb") as f:
        data = f.read()
    if fmt == "shf":
        return True, [], HD.blocks_of(data)[0]
    return True, HD.lines_of(data), []


def option(r, short, long, value):
    """an option with a value in one of its spellings"""
    return r.choice([[f"{short}{value}"], [f"--{long}={value}"], [short, value]]) if value and not value.startswith("-") else [f"--{long}={value}"]


def run_extract(d, name, a, r, valid=True, fmt=None):
    fmt = fmt or r.choice(["ihex", "shf", "srec", "titxt", ""])
    argv = []
    if fmt:
        argv += r.choice([["-t", fmt], [f"--file-type={fmt}"]])
    if a["join"]:
        argv += [r.choice(["-j", "--join"])]
    for short, long, key in (("-e", "exclude_pattern", "exc"), ("-i", "include_pattern", "inc")):
        v = pattern(a, "x", key)
        if v:
            argv += option(r, short, long, v["x"])
    p = os.path.join(d, "out.hex")
    if os.path.exists(p):
        os.unlink(p)
    code, text, x = tool("elf_extract", [*argv, name, "out.hex"] if r.random() < 0.5 else [name, "out.hex", *argv], d)
    there, lines, blocks = written(p, fmt)
    return {"k": "extract", "valid": valid, "a": a, "fmt": fmt or "ihex", "code": code, "x": x, "out": said(read_extract, text, code, "extract"), "there": there and os.path.getsize(p) > 0, "lines": lines, "blocks": blocks}


def run_syms(d, name, a, r, valid=True):
    argv = []
    if a["sections"]:
        argv += option(r, "-s", "sections", listed(a, "sections")["sections"])
    if a["pattern"]:
        argv += option(r, "-p", "pattern", pattern(a, "x", "pattern")["x"])
    for short, long, key in (("-t", "types", "types"), ("-a", "access", "access"), ("-b", "bindings", "bindings")):
        if a[key]:
            argv += option(r, short, long, (" " if a["odd"] else ",").join(x.upper() if a["odd"] else x for x in a[key]))
    if not a["byvalue"]:
        argv += r.choice([["-o", "N"], ["--order-by=N"]])
    elif r.random() < 0.3:
        argv += ["-o", "V"]
    code, text, x = tool("elf_syms", [*argv, name] if r.random() < 0.5 else [name, *argv], d)
    return {"k": "syms", "valid": valid, "a": a, "code": code, "x": x, "out": said(read_syms, text, code, "syms"), "there": False}


def run_plain(k, d, name, valid=True):
    code, text, x = tool({"info": "elf_info", "arm": "elf_arm_attrs"}[k], [name], d)
    return {"k": k, "valid": valid, "a": {}, "code": code, "x": x, "out": said({"info": read_info, "arm": read_arm}[k], text, code, k), "there": False}


SYM0 = {"sections": [], "pattern": [], "access": [], "bindings": [], "types": [], "byvalue": True, "odd": False}
IMG0 = {"join": False, "inc": [], "exc": [], "odd": False}


def one_elf(out, cid, data, r, runs, valid=True):
    """runs: functions of (directory, file name); they follow one another, so that all but the first work with the cache"""
    d = tempfile.mkdtemp(prefix="tool-")
    try:
        name = r.choice(["prog.elf", "prog", "a.out"])
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
        out.put({"id": cid, "file": list(data), "steps": [fn(d, name) for fn in runs]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


def vary(r, data):
    """header fields: type, machine, flags, OS/ABI"""
    b = bytearray(data)
    e = "<" if b[5] == 1 else ">"
    if r.random() < 0.6:
        struct.pack_into(e + "H", b, 16, r.choice([0, 1, 2, 3, 4, 5, 6, 0xFE00, 0xFE01, 0xFF00, 0xFFFF]))
    if r.random() < 0.7:
        struct.pack_into(e + "H", b, 18, r.choice([0, 2, 3, 4, 8, 20, 40, 40, 40, 44, 53, 62, 83, 83, 83, 94, 105, 183, 183, 243, 0xFEED]))
        struct.pack_into(e + "I", b, 48 if b[4] == 2 else 36, r.choice([0, 5, 0x85, 0x80, 6, 0x86, 100, 107, 0xE7, 108, 51, 0xFF, 25, r.getrandbits(32)]))
    if r.random() < 0.6:
        b[7] = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 9, 12, 18, 97, 98, 255])
        b[8] = r.choice([0, 1, 7, 255])
    off, size, n = (struct.unpack_from(e + "Q", b, 40)[0], 64, struct.unpack_from(e + "H", b, 60)[0]) if b[4] == 2 else (struct.unpack_from(e + "I", b, 32)[0], 40, struct.unpack_from(e + "H", b, 48)[0])
    for k in range(n):  # types of sections the tools only name
        if struct.unpack_from(e + "I", b, off + k * size + 4)[0] == 1 and r.random() < 0.3:
            struct.pack_into(e + "I", b, off + k * size + 4, r.choice(TYPES))
    return bytes(b)


class Plain(Build):
    """no sections that look like debug information"""

    def make(self):
        import elfbuild

        keep = elfbuild.DEBUG
        elfbuild.DEBUG = [".dwo", ".rodata.x"]
        try:
            return super().make()
        finally:
            elfbuild.DEBUG = keep


def show_runs(r, n=4):
    q = []
    for _ in range(n):
        k = r.choice(["syms", "syms", "info", "info", "arm"])
        if k == "syms":
            a = rand_query(r, "symbols.fetch", NAMES + DEBUG + [".symtab"], SYMS[:-3] + ["x"]) if r.random() < 0.8 else SYM0
            q.append(lambda d, name, a=a: run_syms(d, name, a, r))
        else:
            q.append(lambda d, name, k=k: run_plain(k, d, name))
    return q


def garbage(r):
    return r.choice([b"", b"\x7fELF", b"not an ELF file\n" * 8, r.randbytes(200), b"\x7fELG" + bytes(200), b"\x7fELF\x02\x03" + bytes(200)])


def elf_case(out, cid, r, focus):
    if r.random() < 0.06:
        data = garbage(r)
        one_elf(out, cid, data, r, [lambda d, n: run_extract(d, n, IMG0, r, False)] if focus == "extract" else [lambda d, n: run_syms(d, n, SYM0, r, False), lambda d, n: run_plain("info", d, n, False), lambda d, n: run_plain("arm", d, n, False)])
        return
    data = vary(r, Plain(r, full=focus == "show" and r.random() < 0.4).make())
    if focus == "show":
        one_elf(out, cid, data, r, show_runs(r))
    else:
        qs = [rand_query(r, "image", NAMES + DEBUG + [".symtab"], SYMS) for _ in range(3)]
        one_elf(out, cid, data, r, [lambda d, n, a=a: run_extract(d, n, a, r) for a in qs])


def scenario(out, cid, t, r, focus):
    """file and queries of ElfMC.tla"""
    runs = []
    for q in t["queries"]:
        if focus == "extract" and q["k"] == "image":
            runs.append(lambda d, n, a=q["a"]: run_extract(d, n, a, r))
        elif focus == "show" and q["k"] == "symbols.fetch":
            runs.append(lambda d, n, a=q["a"]: run_syms(d, n, a, r))
        elif focus == "show" and q["k"] == "special":
            runs.append(lambda d, n: run_plain("info", d, n))
    one_elf(out, cid, bytes(t["file"]), r, r.sample(runs, min(2, len(runs))))


def hex_case(out, cid, args, i, fmt):
    r = rng(args, f"{i}/{fmt}")
    g = HD.Gen(args, i, fmt)
    d = tempfile.mkdtemp(prefix="tool-")
    try:
        ss = [s for s in g.image() if s[0] + len(s[1]) <= 1 << 32] or [(0x100, b"abc")]
        img = g.mk(ss)
        kw, _ = g.opts(ss, "read")
        there = r.random() < 0.97
        data = b""
        try:
            data = bytes(HD.objutils.dumps(fmt, img, **kw))
        except Exception:  # what writers refuse is not the matter here
            data = bytes(HD.objutils.dumps(fmt, HD.Image([HD.Section(0x20, b"0123")])))
        if there:
            if r.random() < 0.25 and fmt != "shf":  # damaged
                k = r.randrange(len(data))
                data = data[:k] + r.choice([bytes([data[k] ^ 1]), b"", b"0", b"\n"]) + data[k + 1 :]
            with open(os.path.join(d, "f.hex"), "wb") as f:
                f.write(data)
        dump = r.random() < 0.5
        argv = [fmt, "f.hex"] + (r.choice([["-d"], ["--dump"]]) if dump else [])
        if dump and r.random() < 0.5:
            argv = argv[2:] + argv[:2]
        code, text, x = tool("hex_info", argv, d)
        e = {"k": "hexinfo", "fmt": fmt, "there": there, "dump": dump, "code": code, "x": x, "out": said(read_hexinfo, text, code, "hexinfo"), "lines": [], "blocks": []}
        if fmt == "shf":
            e["blocks"] = HD.blocks_of(data)[0]
        else:
            e["lines"] = HD.lines_of(data)
        out.put({"id": cid, "file": [], "steps": [e]})
    finally:
        shutil.rmtree(d, ignore_errors=True)


HEXFMT = ["ash", "cosmac", "emon52", "etek", "fpc", "ihex", "mostec", "rca", "shf", "sig", "srec", "tek", "titxt"]


def main():
    p = parser()
    p.add_argument("--scenarios", default="")
    p.add_argument("--kind", default="")
    p.add_argument("--stride", type=int, default=1)
    args = p.parse_args()
    out = Out(args.out)
    for n in ("elf_info", "elf_syms", "elf_arm_attrs", "elf_extract", "hex_info"):
        TOOLS[n] = importlib.import_module("objutils.scripts.oj_" + n)
    if args.scenarios:
        with open(args.scenarios) as f:
            for k, line in enumerate(f):
                if k % args.shards == args.shard and (k // args.shards + args.seed) % args.stride == 0:
                    scenario(out, f"s{k}", json.loads(line), rng(args, k), args.focus)
    elif args.focus == "cc":
        for k, job, data in compiled.files(args, (2, 3, 4, 0) if args.kind == "info" else ()):
            r = rng(args, k)
            secnames = [".text", ".data", ".bss", ".symtab", ".rodata", ".comment", ".shstrtab", ".init0", ".text.f"]
            if args.kind == "extract":
                runs = [lambda d, n, a=a: run_extract(d, n, a, r) for a in [rand_query(r, "image", secnames, []) for _ in range(2)]]
            else:
                a = rand_query(r, "symbols.fetch", secnames, ["f", "main", "x", "t", "buf", "head", "go", "w", "hid", "com", ".text", ".L.str", "$a", "$d"])
                runs = [lambda d, n: run_plain("info", d, n), lambda d, n, a=a: run_syms(d, n, a, r)]
                if data[19 - (data[5] == 1)] == 40:
                    runs += [lambda d, n: run_plain("arm", d, n)]
                r.shuffle(runs)
            one_elf(out, f"cc{k} {' '.join(map(str, job))}", data, r, runs)
    elif args.focus == "hexinfo":
        for i in range(args.n):
            for fmt in HEXFMT:
                hex_case(out, f"x{args.shard}.{i}.{fmt}", args, i, fmt)
    else:
        for i in range(args.n):
            elf_case(out, f"{args.focus}{args.shard}.{i}", rng(args, i), args.focus)
    out.close()


if __name__ == "__main__":
    main()
