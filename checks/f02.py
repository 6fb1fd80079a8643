from .hex_checks import models, recorded


def run(ctx):
    models(ctx, "seq", ["ihex"])
    recorded(ctx, "read", ["ihex"], 200)
