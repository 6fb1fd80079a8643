from checks import tool_checks


def run(ctx):
    tool_checks.hex_info(ctx)
