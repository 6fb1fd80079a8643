from checks import elf_checks


def run(ctx):
    elf_checks.bounded(ctx, "open", elf_checks.detail)
    elf_checks.recorded(ctx, "detail", 80, elf_checks.detail)
    elf_checks.compiled(ctx, "open", elf_checks.detail)
