def run(ctx):
    t, _ = ctx.scenarios("HelpersMC", "HelpersMC_2" if ctx.quick else "HelpersMC_3", "helper_driver.py", what="all small arguments", min_states=3000)
    ctx.validate("HelpersTrace", t, what="all small arguments", timeout=3000)
    t = ctx.drive_shards("helper_driver.py", "helpers", 8, ["--n", 150 if ctx.quick else 4000])
    ctx.validate("HelpersTrace", t, what="random arguments", timeout=3000)
