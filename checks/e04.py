from checks import elf_checks


def run(ctx):
    elf_checks.bounded(ctx, "query")
    elf_checks.recorded(ctx, "query", 80)
    elf_checks.compiled(ctx, "query")
