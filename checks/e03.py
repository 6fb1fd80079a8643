from checks import elf_checks


def run(ctx):
    elf_checks.histories(ctx)
    elf_checks.recorded(ctx, "cache", 12)
