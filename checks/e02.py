from checks import elf_checks


def run(ctx):
    elf_checks.bounded(ctx, "image")
    elf_checks.recorded(ctx, "image", 60)
    elf_checks.compiled(ctx, "image")
