from .hex_checks import recorded, written


def run(ctx):
    written(ctx, ["ihex"])
    recorded(ctx, "write", ["ihex"], 150)
    recorded(ctx, "big", ["ihex"], 1, 3)
