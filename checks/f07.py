from .hex_checks import CHECKED, models, recorded


def run(ctx):
    models(ctx, "mut", CHECKED)
    recorded(ctx, "corrupt", CHECKED, 100)
