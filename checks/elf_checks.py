"""Checks of the ELF reader (ElfFormat.tla, ElfCacheMC.tla): E01 .. E05."""

DETAIL = ("open: notes", "open: comment", "open: ARM attributes")


def detail(key):
    return key in DETAIL or key.startswith("open: refused")


def plain(key):
    return key not in DETAIL


def bounded(ctx, mode, only=None):
    """all small files of the bounded model, with queries"""
    t, _ = ctx.scenarios("ElfMC", "ElfMC_2", "elf_driver.py", env={"MODE": mode}, what=f"all small ELF files ({mode})", min_states=1000)
    ctx.validate("ElfTrace", t, what=f"all small ELF files ({mode})", only=only)
    if not ctx.quick:
        t, r = ctx.scenarios("ElfMC", "ElfMC_3", "elf_driver.py", env={"MODE": mode}, what=f"all small ELF files, three sections ({mode})", timeout=1500)
        ctx.validate("ElfTrace", t, what=f"all small ELF files, three sections ({mode})", only=only, timeout=3000)


def recorded(ctx, focus, n, only=None, thorough=10):
    k = n if ctx.quick else n * thorough
    t = ctx.drive_shards("elf_driver.py", focus, 8, ["--focus", focus, "--n", k])
    ctx.validate("ElfTrace", t, what=f"generated ELF files ({focus})", only=only, timeout=3000)
    ctx.assumptions += ["well-formed ELF files of a few kilobytes with up to 15 sections and two symbol tables; offsets and sizes of contents below 2^24"]


def compiled(ctx, kind, only=None):
    """files of the system's compilers and linkers, for many processors"""
    t = ctx.drive_shards("elf_driver.py", "cc", 8, ["--focus", "cc", "--kind", kind, "--n", 0])
    ctx.validate("ElfTrace", t, what=f"files of compilers for many processors ({kind})", only=only, timeout=3000)


def histories(ctx):
    ctx.model_refuted("ElfCacheMC", "ElfCacheMC_twice", "CacheComplete", what="loader that commits the digest first")
    cfg = "ElfCacheMC_2" if ctx.quick else "ElfCacheMC_3"
    t, _ = ctx.scenarios("ElfCacheMC", cfg, "elf_driver.py", what=f"histories of files, opens and crashes ({cfg})", timeout=3000)
    ctx.validate("ElfTrace", t, what="histories of files, opens and crashes", timeout=3000)
