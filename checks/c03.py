import framescheck
ACTS = {"newf", "newt", "dropt", "dropf", "setframe", "tinplace", "tout", "dot", "dotn", "cross", "show", "setaxes"}


def run(ctx):
    ctx.assumptions += ["float comparison tolerance 1e-7 relative", "axes and components are rationals bounded by Nice"]
    framescheck.run(ctx, ACTS,
        sims=[("3d, orders 1-3", 3, {"V", "T2", "T2x3", "T3"}, {0}, 12, 1, 400, 8000, 14),
              ("3d, orders 1, 2 and 4", 3, {"V", "T2", "T4", "T4x3"}, {0}, 4, 1, 80, 1500, 10),
              ("2d, orders 1-4", 2, {"V", "T2", "T3", "T4"}, {0, 4}, 12, 1, 160, 3000, 14)],
        exhaustive=[("2d single steps", 2, {"V", "T2"}, {0, 3}), ("3d single steps", 3, {"V"}, {0})],
        deep=[("2d depth 2", 2, {"V", "T2"}, {0}, 2)])
