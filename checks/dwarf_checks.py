"""Checks of debug information: D01 (encodings), D02 (expressions), D03 (entries)."""


def recorded(ctx, focus, n, what, thorough=20):
    t = ctx.drive_shards("dwarf_driver.py", focus, 8, ["--focus", focus, "--n", n if ctx.quick else n * thorough])
    ctx.validate("DwarfTrace", t, what=what, timeout=3000)


def encodings(ctx):
    ctx.model_check("LebMC", what="LEB128 numbers: encoding and decoding are inverse")
    recorded(ctx, "enc", 400, "elementary encodings")


def expressions(ctx):
    recorded(ctx, "expr", 300, "every operation and random expressions")


def entries(ctx):
    for q, th in (("DwarfMC_one", "DwarfMC_one4"), ("DwarfMC_two", "DwarfMC_two5")):
        t, _ = ctx.scenarios("DwarfMC", q if ctx.quick else th, "dwarf_driver.py", what="all small debug sections", min_states=1000, timeout=3000)
        ctx.validate("DwarfTrace", t, what="all small debug sections", timeout=3000)
    recorded(ctx, "info", 60, "random trees of entries")
    recorded(ctx, "cc", 0, "programs compiled for many processors")
