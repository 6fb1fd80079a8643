from .hex_checks import PLAIN, models, recorded, written


def run(ctx):
    written(ctx, PLAIN)
    models(ctx, "seq", PLAIN)
    recorded(ctx, "write", PLAIN + ["shf", "bin"], 40)
    recorded(ctx, "read", PLAIN + ["shf", "bin"], 40)
    recorded(ctx, "big", PLAIN + ["shf", "bin"], 1, 3)
