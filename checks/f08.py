from .hex_checks import recorded


def run(ctx):
    recorded(ctx, "limits", [], 60)
