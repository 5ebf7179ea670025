import jagcheck


def run(ctx):
    ctx.assumptions += ["values are integers of the specification, stored as integers or floats and mapped to large, fractional, tiny and huge values; at least one row", "lists of two-dimensional arrays keep their blocks (documented) and are not covered"]
    jagcheck.run(ctx, "store", [("short", 3, 3, 6, 300, 3000), ("long", 5, 4, 12, 400, 5000), ("large", 40, 9, 4, 24, 400)])
