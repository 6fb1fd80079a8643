from .hex_checks import recorded


def run(ctx):
    recorded(ctx, "reuse", [], 40)
