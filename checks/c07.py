import gacheck


def run(ctx):
    ctx.assumptions += ["the sense (minimize/maximize) is only changed together with a reset", "objective values are numbers, not NaN"]
    gacheck.protocol(ctx, 1100, 20000, "protocol")
