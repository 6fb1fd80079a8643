from checks import tool_checks


def run(ctx):
    tool_checks.extract(ctx)
