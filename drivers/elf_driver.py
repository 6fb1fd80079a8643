"""ELF files opened, queried and cached by objutils.elf.

--focus open      random files, opened freshly and once more from the cache
        query     random queries
        image     loadable images
        cc        files of the system's compilers, for many processors
        cache     random histories of files written, opened, crashed ...
--scenarios FILE  files and queries (ElfMC.tla) or histories (ElfCacheMC.tla) printed by TLC
"""
import contextlib
import gc
import io
import json
import os
import pickle
import re
import shutil
import tempfile

import compiled
from common import Out, parser, rng
from elfbuild import DEBUG, NAMES, SYMS, Build


def v8(n):
    return list(int(n).to_bytes(8, "big"))


HDR = "ei_class ei_data ei_version ei_osabi ei_abiversion e_type e_machine e_version e_entry e_phoff e_shoff e_flags e_ehsize e_phentsize e_phnum e_shentsize e_shnum e_shstrndx".split()
SEC = "sh_name sh_type sh_flags sh_addr sh_offset sh_size sh_link sh_info sh_addralign sh_entsize".split()
SEG = "p_type p_flags p_offset p_vaddr p_paddr p_filesz p_memsz p_align".split()
SYM = "st_name st_value st_size st_bind st_type st_other st_shndx".split()
SECP = "flag_writeable flag_alloc flag_executable flag_merge flag_strings flag_info_link flag_link_order flag_os_nonconforming flag_group flag_tls has_content is_debug".split()
SYMP = "weak local global_ hidden undefined absolute writeable allocate executeable".split()


def txt(s):
    return list(s.encode("utf-8"))


def armval(tag, v):
    """attribute of .ARM.attributes: a string, a number or both"""
    n, s = v if isinstance(v, tuple) else ("", v) if isinstance(v, str) else (v, "")
    return dict(tag=tag, s=txt(s), n=[] if n == "" else v8(n))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class View:
    """One parser and its tables."""

    def __init__(self, path):
        from objutils.elf import ElfParser, model

        self.m = model
        with quiet():
            self.p = ElfParser(path)
            self.secs = self.p.query(model.Elf_Section).order_by(model.Elf_Section.index).all()
            self.syms = self.p.query(model.Elf_Symbol).order_by(model.Elf_Symbol.rid).all()
        self.spos = {s.index: i for i, s in enumerate(self.secs, 1)}
        self.ypos = {s.rid: i for i, s in enumerate(self.syms, 1)}

    def close(self):
        self.p.session.close()
        self.p = self.secs = self.syms = None
        gc.collect()

    def snapshot(self):
        p = self.p
        with quiet():
            try:
                arm = [dict(vendor=txt(v), attrs=[armval(a.tag, a.value) for a in q]) for v, q in p.arm_attributes.items()]
            except Exception as x:
                arm = [dict(vendor=txt("! " + type(x).__name__), attrs=[])]
            return dict(
                header={h: v8(getattr(p, h)) for h in HDR},
                ident=list(p.header_bytes),
                segs=[{k: v8(getattr(s, k)) for k in SEG} for s in p.segments],
                secs=[dict({k: v8(getattr(s, k)) for k in SEC}, index=s.index, name=txt(s.section_name), image=list(s.section_image or b""), none=s.section_image is None) for s in self.secs],
                syms=[dict({k: v8(getattr(s, k)) for k in SYM}, name=txt(s.symbol_name), section=txt(s.section_name), access=v8(s.access)) for s in self.syms],
                notes=[dict(type=v8(n.type), name=txt(n.name), desc=list(bytes.fromhex(n.desc)), section=txt(n.section_name)) for n in p.notes],
                comment=txt(p.comment or ""),
                arm=arm,
            )

    def run(self, k, a):
        """-> result of the query"""
        p = self.p
        with quiet():
            if k == "open":
                return {"snap": self.snapshot()}
            if k == "sections.get":
                s = p.sections.get(bytes(a["name"]).decode())
                return {"res": self.spos[s.index] if s else 0}
            if k == "sections.fetch":
                kw = {"order_by_address": a["byaddr"]} if not a["byaddr"] or a["odd"] else {}
                return {"res": [self.spos[s.index] for s in p.sections.fetch(**listed(a, "sections"), **pattern(a, "name_pattern", "pattern"), **kw)]}
            if k == "symbols.get":
                s = p.symbols.get(bytes(a["name"]).decode(), *([bytes(a["section"]).decode()] if a["section"] else []))
                return {"res": self.ypos[s.rid] if s else 0}
            if k == "symbols.fetch":
                kw = {"order_by_value": a["byvalue"]} if not a["byvalue"] or a["odd"] else {}
                for n, key in (("bindings", "bindings"), ("access", "access"), ("types_str", "types")):
                    if a[key]:
                        sep = " " if a["odd"] else ","
                        kw[n] = sep.join(x.upper() if a["odd"] else x for x in a[key])
                r = p.symbols.fetch(**listed(a, "sections"), **pattern(a, "name_pattern", "pattern"), **kw)
                return {"res": [{"key": txt(n), "pos": [self.ypos[s.rid] for s in q]} for n, q in r.items()]}
            if k == "special":
                return {"res": [self.ypos[s.rid] for s in p.symbols.fetch_gcc_special_symbols()]}
            if k in ("symbol predicates", "section predicates"):
                sym = k[1] == "y"
                T = self.m.Elf_Symbol if sym else self.m.Elf_Section
                rows, res = (self.syms, []) if sym else (self.secs, [])
                for n in SYMP if sym else SECP:
                    e = {"p": n, "mem": [i for i, s in enumerate(rows, 1) if getattr(s, n)], "hasq": n != "is_debug", "qry": []}
                    if e["hasq"]:
                        e["qry"] = [self.ypos[s.rid] if sym else self.spos[s.index] for s in p.query(T).filter(getattr(T, n)).all()]
                    res.append(e)
                return {"res": res}
            if k == "segments":
                return {"res": {n: [[i for i, s in enumerate(self.secs, 1) if fn(s, g)] for g in p.segments] for n, fn in (("loose", p.section_in_segment), ("strict", p.section_in_segment_strict))}}
            if k == "debug":
                return {"res": [{"name": txt(n), "image": list(d.image or b"")} for n, d in p.debug_sections().items()]}
            if k == "image":
                seen = []
                kw = {}
                if not a["join"] or a["odd"]:
                    kw["join"] = a["join"]
                img = p.create_image(callback=lambda st, s: seen.append((st, s.index if s is not None else None)), **pattern(a, "include_pattern", "inc"), **pattern(a, "exclude_pattern", "exc"), **kw)
                return {"res": [{"a": v8(s.start_address), "d": list(bytes(s.data))} for s in img.sections],
                        "called": [self.spos[i] for st, i in seen if st == "section"], "framed": len(seen) > 1 and seen[0] == ("start", None) and seen[-1] == ("stop", None)}
        raise AssertionError("VT-DRIVER-BROKEN " + k)

    def step(self, k, f, a=None):
        e = {"k": k, "f": f, "x": "", "a": a or {}}
        try:
            e.update(self.run(k, a))
        except Exception as x:
            e["x"] = type(x).__name__
            e.update(BLANK[k])
        return e


BLANK = {k: {"res": []} for k in ("sections.fetch", "symbols.fetch", "special", "symbol predicates", "section predicates", "debug")}
BLANK.update({"open": {"snap": {}}, "sections.get": {"res": 0}, "symbols.get": {"res": 0}, "segments": {"res": {"loose": [], "strict": []}}, "image": {"res": [], "called": [], "framed": True}})


def listed(a, key):
    if not a[key]:
        return {}
    return {key: (" " if a["odd"] else ",").join(bytes(x).decode() for x in a[key])}


def pattern(a, kw, key):
    """sequences of atoms -> regular expression"""
    if not a[key]:
        return {}
    alts = []
    for alt in a[key]:
        alts.append("".join({"lit": re.escape(chr(t.get("c", 0))), "any": ".", "star": ".*", "end": "$"}[t["k"]] for t in alt))
    return {kw: "|".join(alts)}


def lit(s):
    return [{"k": "lit", "c": c} for c in s.encode()]


LAST = []


def rand_pattern(r, names):
    """now and then a close relative of an earlier pattern"""
    if LAST and r.random() < 0.25:
        old = json.loads(json.dumps(r.choice(LAST[-4:])))
        how = r.choice(["case", "case", "order", "cut"])
        if how == "case":
            for alt in old:
                for t in alt:
                    if t["k"] == "lit":
                        t["c"] = ord(chr(t["c"]).swapcase())
        elif how == "order":
            old.reverse()
        elif len(old[0]) > 1:
            old[0].pop()
        return old
    q = new_pattern(r, names)
    LAST.append(q)
    return q


def new_pattern(r, names):
    out = []
    for _ in range(r.choice([1, 1, 1, 2])):
        n = r.choice(names)
        n = n if n.isascii() else "g"
        kind = r.choice(["full", "prefix", "suffix", "inner", "any"])
        if kind == "full":
            out.append(lit(n) + [{"k": "end"}])
        elif kind == "prefix":
            out.append(lit(n[: r.randrange(1, 6)]))
        elif kind == "suffix":
            out.append([{"k": "star"}] + lit(n[-2:]) + [{"k": "end"}])
        elif kind == "inner":
            out.append([{"k": "star"}] + lit(n[1:3]) + [{"k": "star"}])
        else:
            out.append(lit(n[:1]) + [{"k": "any"}] + lit(n[2:4]))
    return [x for x in out if x] or [lit("x")]


def rand_query(r, k, secnames, symnames):
    names = [n for n in secnames if n and "," not in n and " " not in n] or [".text"]
    some = lambda q, n: [list(x.encode()) for x in r.sample(q, min(len(q), n))]
    odd = r.random() < 0.4
    if k == "sections.get":
        return {"name": list(r.choice(secnames + [".nope"]).encode())}
    if k == "sections.fetch":
        return {"sections": some(names, 2) if r.random() < 0.3 else [], "pattern": rand_pattern(r, names) if r.random() < 0.6 else [], "byaddr": r.random() < 0.6, "odd": odd}
    if k == "symbols.get":
        return {"name": list(r.choice(symnames + ["nope"]).encode()), "section": list(r.choice(names + ["SHN_ABS", "SHN_UNDEF"]).encode()) if r.random() < 0.5 else []}
    if k == "symbols.fetch":
        return {"sections": some(names + ["SHN_ABS", "SHN_UNDEF", "SHN_COMMON"], r.choice([1, 2, 4])) if r.random() < 0.4 else [],
                "pattern": rand_pattern(r, symnames) if r.random() < 0.4 else [],
                "access": r.sample("awx", r.choice([1, 1, 2, 3])) if r.random() < 0.4 else [],
                "bindings": r.sample("glw", r.choice([1, 1, 2, 3])) if r.random() < 0.4 else [],
                "types": r.sample(["notype", "object", "func", "section", "file", "common", "tls"], r.choice([1, 2, 3])) if r.random() < 0.4 else [],
                "byvalue": r.random() < 0.6, "odd": odd}
    if k == "image":
        return {"join": r.random() < 0.7, "inc": rand_pattern(r, names) if r.random() < 0.4 else [], "exc": rand_pattern(r, names) if r.random() < 0.4 else [], "odd": odd}
    return {}


class Dir:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="elf-")

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def one_file(out, cid, data, steps, cached):
    """open a file (again, when `cached`), run the steps on each parser"""
    d = Dir()
    try:
        path = os.path.join(d.d, "prog.elf")
        with open(path, "wb") as f:
            f.write(data)
        rec = {"id": cid, "files": [list(data)], "gaps": [[0, 0]], "steps": []}
        for _ in range(2 if cached else 1):
            try:
                v = View(path)
            except Exception as x:
                rec["steps"].append({"k": "open", "f": 1, "x": type(x).__name__, "a": {}, "snap": {}})
                break
            for k, a in steps:
                rec["steps"].append(v.step(k, 1, a))
            v.close()
        out.put(rec)
    finally:
        d.close()


# ------------------------------------------------------------------ histories
class Crash:
    """The process ends (or the database fails) at the n-th database event of an open."""

    def __init__(self, at, how):
        from sqlalchemy import event
        from sqlalchemy.engine import Engine

        self.n, self.at, self.how = 0, at, how

        def tick(*a, **k):
            self.n += 1
            if self.n == self.at:
                if how == "exit":
                    os._exit(77)
                if how == "error":
                    import sqlite3

                    raise sqlite3.OperationalError("disk I/O error")

        event.listen(Engine, "before_cursor_execute", tick)
        event.listen(Engine, "after_cursor_execute", tick)
        event.listen(Engine, "commit", tick)


def in_child(path, at, how):
    """open `path` in a process of its own -> (status, snapshot or exception, number of events)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        res = ("broken", None, 0)
        try:
            c = Crash(at, how)
            try:
                v = View(path)
                n, c.at = c.n, 0  # what follows is not part of the open
                res = ("ok", v.snapshot(), n)
            except Exception as x:
                res = ("raised", type(x).__name__, c.n)
        finally:
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        blob = f.read()
    _, st = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(st) == 77:
        return ("crashed", None, 0)
    return pickle.loads(blob)


class World:
    """two programs of the same stem share one cache"""

    def __init__(self, files):
        self.files, self.d = files, Dir()
        self.events = {}
        self.now = {}

    def path(self, p):
        return os.path.join(self.d.d, "prog" + {1: ".elf", 2: ".o", 3: ""}[p])

    def measure(self, v):
        if v not in self.events:
            d = Dir()
            path = os.path.join(d.d, "m.elf")
            with open(path, "wb") as f:
                f.write(self.files[v - 1])
            r = in_child(path, 0, "")
            self.events[v] = r[2]
            d.close()
        return self.events[v]

    def run(self, op):
        o, p = op["o"], op["p"]
        e = {"k": o, "f": self.now.get(p, 1), "x": "", "a": op, "snap": {}}
        if o == "write":
            self.now[p] = op["v"]
            e["f"] = op["v"]
            if op.get("how") == "rename":
                tmp = self.path(p) + ".new"
                with open(tmp, "wb") as f:
                    f.write(self.files[op["v"] - 1])
                if os.path.exists(self.path(p)):  # times tell nothing
                    st = os.stat(self.path(p))
                    os.utime(tmp, ns=(st.st_atime_ns, st.st_mtime_ns))
                os.replace(tmp, self.path(p))
            else:
                with open(self.path(p), "wb") as f:
                    f.write(self.files[op["v"] - 1])
        elif o == "remove":
            e["k"] = "write"
            for n in os.listdir(self.d.d):
                if ".prgdb" in n:
                    os.unlink(os.path.join(self.d.d, n))
        elif o == "open":
            st, r, _ = in_child(self.path(p), 0, "")
            if st == "ok":
                e["snap"] = r
            else:
                e["x"] = str(r or st)
        elif o in ("crash", "error"):
            e["k"] = "crash"
            n = self.measure(self.now[p])
            at = max(1, min(n, round(op["num"] * n / op["den"])))
            st, r, _ = in_child(self.path(p), at, "exit" if o == "crash" else "error")
            if st == "ok":
                e["k"], e["snap"] = "open", r
        return e

    def close(self):
        self.d.close()


def history(out, cid, files, ops):
    w = World(files)
    try:
        gaps = [gap(f) for f in files]
        rec = {"id": cid, "files": [list(f[: g[0]] + f[g[0] + g[1] :]) for f, g in zip(files, gaps)], "gaps": gaps, "steps": [w.run(op) for op in ops]}
    finally:
        w.close()
    out.put(rec)


def gap(f):
    """the longest stretch of zeros in a long file"""
    if len(f) < 20000:
        return [0, 0]
    at = f.find(bytes(16000))
    n = 0
    while f[at + n : at + n + 256] == bytes(256):
        n += 256
    return [at, n]


def versions(r):
    """three files that differ in places a careless comparison overlooks"""
    long = r.choice([0, 0, 0, 1 << 16, 1 << 20, 9 << 20])
    a = Build(r, full=True, pad=long).make()
    how = r.choice(["other", "same length", "last byte", "other"])
    if how == "other":
        b = Build(r, full=True, pad=long).make()
    else:
        b = bytearray(a)
        k = len(b) - 1 if how == "last byte" else r.randrange(64, len(b))
        # change the contents of a section, not the structure of the file
        k = data_byte(a, k)
        b[k] ^= 0x21
        b = bytes(b)
    c = Build(r, full=True).make()
    return [a, b, c]


def data_byte(f, k):
    """a byte inside an ordinary section near k"""
    import struct

    e = "<" if f[5] == 1 else ">"
    wide = f[4] == 2
    shoff, = struct.unpack_from(e + ("Q" if wide else "I"), f, 40 if wide else 32)
    n, = struct.unpack_from(e + "H", f, 60 if wide else 48)
    strs, = struct.unpack_from(e + "H", f, 62 if wide else 50)
    names, = struct.unpack_from(e + ("Q" if wide else "I"), f, shoff + strs * (64 if wide else 40) + (24 if wide else 16))
    best = None
    for i in range(n):
        b = shoff + i * (64 if wide else 40)
        ty, = struct.unpack_from(e + "I", f, b + 4)
        off, size = struct.unpack_from(e + ("QQ" if wide else "II"), f, b + (24 if wide else 16))
        nm = names + int.from_bytes(f[b : b + 4], "little" if e == "<" else "big")
        if size and ty == 1 and f[nm : nm + 9] != b".comment\0":
            for q in (off, off + size - 1):
                if best is None or abs(q - k) < abs(best - k):
                    best = q
    return best


def main():
    p = parser()
    p.add_argument("--scenarios", default="")
    p.add_argument("--kind", default="open")
    args = p.parse_args()
    out = Out(args.out)
    with quiet():
        import objutils.elf  # noqa: F401
    if args.scenarios:
        with open(args.scenarios) as f:
            for k, line in enumerate(f):
                if k % args.shards != args.shard:
                    continue
                t = json.loads(line)
                if "ops" in t:
                    r = rng(args, f"hist{k % 16}")
                    history(out, f"h{k}", versions(r), t["ops"])
                else:
                    one_file(out, f"s{k}", bytes(t["file"]), [(q["k"], q["a"]) for q in t["queries"]], k % 3 == 0)
        out.close()
        return
    if args.focus == "cc":
        for k, job, data in compiled.files(args, (2, 3, 4, 5) if args.kind == "open" else ()):
            r = rng(args, k)
            kinds = {"open": ["open", "debug"], "image": ["image"] * 3, "query": ["sections.fetch", "symbols.get", "symbols.fetch", "symbols.fetch", "special", "symbol predicates", "section predicates", "segments"]}
            secnames = [".text", ".data", ".bss", ".symtab", ".rodata", ".debug_info", ".comment", ".shstrtab", ".init0", ".text.f"]
            steps = [(q, rand_query(r, q, secnames, ["f", "main", "x", "t", "buf", "head", "go", "w", "hid", "com", ".text", ".L.str", "$a", "$d"])) for q in kinds[args.kind]]
            one_file(out, f"cc{k} {' '.join(map(str, job))}", data, steps, k % 3 == 0)
        out.close()
        return
    for i in range(args.n):
        cid = f"{args.focus}{args.shard}.{i}"
        r = rng(args, i)
        if args.focus == "cache":
            fs = versions(r)
            ops = [{"o": "write", "p": 1, "v": 1, "how": "", "num": 0, "den": 1}]
            have = {1}
            for _ in range(r.randrange(2, 8)):
                o = r.choice(["write", "open", "open", "crash", "crash", "error", "remove"])
                q = r.choice(sorted(have))
                if o == "write":
                    q = r.choice([1, 1, 2, 3])
                    have.add(q)
                ops.append({"o": o, "p": q, "v": r.choice([1, 2, 3]), "how": r.choice(["", "rename"]), "num": r.randrange(0, 1000), "den": 999})
            for q in sorted(have):
                ops.append({"o": "open", "p": q, "v": 0, "how": "", "num": 0, "den": 1})
            history(out, cid, fs, ops)
            continue
        data = Build(r, full=args.focus == "detail").make()
        if args.focus in ("open", "detail"):
            steps = [("open", {})]
            if r.random() < 0.3:
                steps += [("debug", {})]
            one_file(out, cid, data, steps, i % 2 == 0)
        else:
            kinds = ["image"] * 4 if args.focus == "image" else [r.choice(["sections.get", "sections.fetch", "symbols.get", "symbols.fetch", "symbols.fetch", "special", "symbol predicates", "section predicates", "debug", "segments"]) for _ in range(6)]
            steps = [(k, rand_query(r, k, NAMES + DEBUG + [".symtab"], SYMS[:-3] + ["x"])) for k in kinds]
            one_file(out, cid, data, steps, i % 4 == 0)
    out.close()


if __name__ == "__main__":
    main()
