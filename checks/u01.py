from checks import util_checks


def run(ctx):
    util_checks.dumps(ctx)
