"""Checks of the command line tools: T01 (oj-hex-info), T02 (oj-elf-extract), T03 (oj-elf-info, -syms, -arm-attrs)."""


def recorded(ctx, focus, n, what, thorough=12, extra=()):
    t = ctx.drive_shards("tool_driver.py", focus, 8, ["--focus", focus, "--n", n if ctx.quick else n * thorough, *extra], timeout=3000)
    ctx.validate("ToolTrace", t, what=what, timeout=3000)


def bounded(ctx, mode, focus, stride):
    """files and queries of the bounded model, given to the tools"""
    t, _ = ctx.scenarios("ElfMC", "ElfMC_2", "tool_driver.py", ["--focus", focus, "--stride", stride if ctx.quick else 1], env={"MODE": mode}, what=f"small ELF files ({mode})", min_states=1000)
    ctx.validate("ToolTrace", t, what=f"small ELF files ({mode})", timeout=3000)


def hex_info(ctx):
    recorded(ctx, "hexinfo", 60, "files of thirteen formats, damaged ones and missing ones")


def extract(ctx):
    bounded(ctx, "image", "extract", 8)
    recorded(ctx, "extract", 60, "generated ELF files")
    recorded(ctx, "cc", 0, "files of compilers for many processors", 1, ["--kind", "extract"])


def show(ctx):
    bounded(ctx, "query", "show", 8)
    recorded(ctx, "show", 70, "generated ELF files")
    recorded(ctx, "cc", 0, "files of compilers for many processors", 1, ["--kind", "info"])
