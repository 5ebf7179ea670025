import jagcheck


def run(ctx):
    ctx.assumptions += ["integer values; positions in jagged data are row-major (flat) positions, in dense data pairs of indices"]
    jagcheck.run(ctx, "unique", [("short", 3, 3, 6, 300, 3000), ("long", 6, 5, 12, 400, 5000), ("large", 40, 9, 4, 24, 400)])
