from .hex_checks import recorded


def run(ctx):
    recorded(ctx, "same", [], 40)
