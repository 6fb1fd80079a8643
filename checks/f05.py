from .hex_checks import models, recorded, written


def run(ctx):
    fmts = ["sig", "tek", "mostec", "emon52", "etek", "fpc"]
    written(ctx, fmts)
    models(ctx, "seq", fmts)
    recorded(ctx, "write", fmts, 40)
    recorded(ctx, "read", fmts, 40)
    recorded(ctx, "big", fmts, 1, 3)
