from .hex_checks import models, recorded


def run(ctx):
    models(ctx, "seq", ["srec"])
    recorded(ctx, "read", ["srec"], 200)
