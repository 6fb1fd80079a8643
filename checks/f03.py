from .hex_checks import recorded, written


def run(ctx):
    written(ctx, ["srec"])
    recorded(ctx, "srec", ["srec"], 150)
    recorded(ctx, "big", ["srec"], 1, 3)
