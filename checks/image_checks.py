"""Checks of the memory model (ImageModel.tla): M01 .. M08."""


def run_image(ctx, modes, foci, cases, min_states=10, thorough_factor=12):
    """modes: configurations of ImageMC.tla whose transitions are replayed on the code;
    foci: kinds of recorded histories validated with ImageTrace.tla"""
    for m in modes:
        ctx.replay("ImageMC", f"ImageMC_{m}", "image_driver.py", what=f"transitions of the bounded model ({m})")
    for f in foci:
        n = cases if ctx.quick else cases * thorough_factor
        t = ctx.drive_shards("image_driver.py", f, 8, ["--focus", f, "--n", max(1, n // 8)])
        ctx.validate("ImageTrace", t, what=f"recorded histories ({f})")
    ctx.assumptions += [
        "sections handed to the Image constructor don't overlap and insertions are not empty",
        "image sizes in recorded histories stay below a few hundred bytes, except for a few of 70 to 300 sections or 64 KiB; addresses range over 0 .. 2^70",
    ]
