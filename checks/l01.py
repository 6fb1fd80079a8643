def run(ctx):
    t, _ = ctx.scenarios("LogMC", "LogMC_4" if ctx.quick else "LogMC_5", "log_driver.py", what="all short histories of loggers", min_states=3000, timeout=3000)
    ctx.validate("LogTrace", t, what="histories replayed", timeout=3000)
    t = ctx.drive_shards("log_driver.py", "log", 8, ["--n", 150 if ctx.quick else 4000])
    ctx.validate("LogTrace", t, what="random histories", timeout=3000)
