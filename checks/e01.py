from checks import elf_checks


def run(ctx):
    elf_checks.bounded(ctx, "open", elf_checks.plain)
    elf_checks.recorded(ctx, "open", 60, elf_checks.plain)
    elf_checks.compiled(ctx, "open", elf_checks.plain)
