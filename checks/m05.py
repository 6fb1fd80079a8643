from .image_checks import run_image


def run(ctx):
    run_image(ctx, ["str"], ["str"], 2400)
