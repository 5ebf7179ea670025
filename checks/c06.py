import gacheck, bgacheck


def run(ctx):
    ctx.assumptions += ["the sense (minimize/maximize) is only changed together with a reset", "objective values are numbers, not NaN",
                        "the champion of two equally good candidates may be either at the step both are first evaluated"]
    if not gacheck.protocol(ctx, 800, 14000, "champion"):
        return
    bgacheck.histories(ctx, "champion", 240 if ctx.quick else 4000, 6, bgacheck.OBJ + ["sym-quad", "sym-wave"] * 2 + ["num-quad", "num-wave"], strict=0.3)
