from .image_checks import run_image


def run(ctx):
    run_image(ctx, ["query"], ["query"], 2400)
