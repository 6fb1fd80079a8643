"""Checks of the utilities: C01, U01, U02, U03, R01, S01."""


def recorded(ctx, focus, spec, n, what, thorough=20):
    t = ctx.drive_shards("util_driver.py", focus, 8, ["--focus", focus, "--n", n if ctx.quick else n * thorough])
    ctx.validate(spec, t, what=what, timeout=3000)


def bounded(ctx, spec, tier2, tier3, focus, trace, what, args=(), **kw):
    t, _ = ctx.scenarios(spec, tier2 if ctx.quick else tier3, "util_driver.py", args=["--focus", focus, *args], what=what, timeout=3000, **kw)
    ctx.validate(trace, t, what=what, timeout=3000)


def checksums(ctx):
    ctx.replay("ChecksumMC", "ChecksumMC_2" if ctx.quick else "ChecksumMC_3", "util_driver.py", ["--focus", "checksum"], what="all short frames", min_behaviours=1000)
    recorded(ctx, "checksum", "ChecksumTrace", 120, "frames of up to 600 bytes")


def dumps(ctx):
    ctx.model_refuted("HexDumpMC", "HexDumpMC_stale", "Faithful", what="dumper that does not start anew")
    bounded(ctx, "HexDumpMC", "HexDumpMC_2", "HexDumpMC_3", "dump", "HexDumpTrace", "all sections made of a few rows", min_states=1000)
    recorded(ctx, "dump", "HexDumpTrace", 120, "random sections")


def diffs(ctx):
    ctx.model_check("DiffMC", "DiffMC_unique", what="the edit script is unique")
    ctx.replay("DiffMC", "DiffMC_2" if ctx.quick else "DiffMC_3", "util_driver.py", ["--focus", "diff"], what="all pairs of short strings", min_behaviours=1000)
    recorded(ctx, "diff", "DiffTrace", 120, "random pairs")


def readers(ctx):
    ctx.model_check("LebMC", what="LEB128 numbers: encoding and decoding are inverse")
    ctx.replay("BinReaderMC", "BinReaderMC_2" if ctx.quick else "BinReaderMC_3", "util_driver.py", ["--focus", "reader"], what="all operations on short strings", min_behaviours=10000)
    recorded(ctx, "reader", "BinReaderTrace", 200, "histories of reads and seeks")


def registries(ctx):
    bounded(ctx, "RegistryMC", "RegistryMC_3", "RegistryMC_4", "registry", "RegistryTrace", "all short histories of the registry", min_states=1000)
    recorded(ctx, "registry", "RegistryTrace", 60, "random histories of the registry")


def singletons(ctx):
    for cfg, inv, what in (("nolock", "OneEach", "creation without a lock"), ("norecheck", "OneEach", "no second check under the lock"), ("inherit", "RightClass", "instance inherited from the parent")):
        ctx.model_refuted("Singleton", "Singleton_" + cfg, inv, what=what)
    bounded(ctx, "Singleton", "Singleton_2", "Singleton_2", "singleton", "SingletonTrace", "all interleavings of two threads")
    bounded(ctx, "Singleton", "Singleton_3", "Singleton_3", "singleton", "SingletonTrace", "interleavings of three threads")
    if not ctx.quick:
        ctx.model_check("Singleton", "Singleton_4", what="three threads, two calls each")
    recorded(ctx, "singleton", "SingletonTrace", 40, "random schedules, bytecode by bytecode", thorough=30)
