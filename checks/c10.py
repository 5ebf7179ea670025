import symcheck


def run(ctx):
    ctx.assumptions += ["polynomial expressions with integer coefficients", "gradients and Hessians are queried at single points"]
    if not symcheck.run(ctx, "function", [(1, 14, 160, 2000), (2, 18, 400, 8000), (3, 22, 300, 8000), (4, 32, 240, 4000), (5, 26, 160, 3000)]):
        return
    import tlc
    r = tlc.check_ok(tlc.run("NamedFns", dict(R=2), invariants=["Bounded", "Attained", "Emit"]), "named functions")
    ctx.add_tlc(r, "named functions", exhaustive=True)
    ctx.replay_all("named", r.records)
    ctx.log("named functions:", len(r.records))
