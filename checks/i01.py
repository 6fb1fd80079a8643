def run(ctx):
    ctx.model_check("Ieee695MC", "Ieee695MC_cut", what="modules cut short", min_states=100)
    t, _ = ctx.scenarios("Ieee695MC", "Ieee695MC_2" if ctx.quick else "Ieee695MC_3", "ieee_driver.py", what="all modules of a few records", min_states=5000, timeout=3000)
    ctx.validate("Ieee695Trace", t, what="all modules of a few records", timeout=3000)
    t = ctx.drive_shards("ieee_driver.py", "ieee695", 8, ["--n", 400 if ctx.quick else 8000])
    ctx.validate("Ieee695Trace", t, what="random modules", timeout=3000)
