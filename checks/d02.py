from checks import dwarf_checks


def run(ctx):
    dwarf_checks.expressions(ctx)
