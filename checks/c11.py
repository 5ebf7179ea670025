import symcheck


def run(ctx):
    ctx.assumptions += ["sides are integer polynomials, points are integer (so that evaluation is exact in floating point)"]
    symcheck.run(ctx, "relation", [(1, 12, 200, 2500), (2, 14, 600, 9000), (3, 16, 500, 8000), (4, 22, 200, 4000)])
