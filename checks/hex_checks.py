"""Checks of the hex file formats (HexFormats.tla): F01 .. F13."""
import shutil

CHECKED = ["ihex", "srec", "sig", "tek", "mostec", "emon52", "etek", "fpc"]
PLAIN = ["cosmac", "rca", "titxt", "ash"]


def models(ctx, mode, fmts):
    """behaviours of HexMC.tla, one run of TLC per format, replayed on the readers"""
    modes = {"seq": ["seq" if ctx.quick else "seq4", "bytes"]}.get(mode, [mode])
    ctx.parallel([
        (lambda f=f, m=m: ctx.replay("HexMC", f"HexMC_{m}", "hex_driver.py", env={"FMT": f}, what=f"model {m} {f}", workers=2, shards=2)) for f in fmts for m in modes], 4)


def written(ctx, fmts):
    """images and options of the bounded model, written by the code, judged by the specification"""
    files = ctx.parallel([
        (lambda f=f, m=m: ctx.scenarios("HexMC", f"HexMC_{m}", "hex_driver.py", env={"FMT": f}, what=f"model {m} {f}", workers=2, shards=2, args=["--focus", f]))
        for f in fmts for m in ("write", "digits")], 4)
    t = ctx.path("written.ndjson")
    with open(t, "wb") as o:
        for f, _ in files:
            with open(f, "rb") as i:
                shutil.copyfileobj(i, o)
    ctx.validate("HexTrace", t, what="images and options of the bounded model")


def recorded(ctx, focus, fmts, n, thorough=8):
    """n: cases per format and shard (8 shards)"""
    k = n if ctx.quick else n * thorough
    t = ctx.drive_shards("hex_driver.py", focus, 8, ["--focus", focus, "--n", k, *(["--fmts", ",".join(fmts)] if fmts else [])])
    ctx.validate("HexTrace", t, what=f"recorded files ({focus})")
    ctx.assumptions += ["lines the format descriptions say nothing about are not judged", "images of up to a few hundred bytes in up to five sections" if focus != "big" else "large images: up to 260 sections, or up to 9000 bytes (Intel HEX: 70000 bytes) in a section"]
