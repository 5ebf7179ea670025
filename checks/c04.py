import framescheck
ACTS = {"setaxes", "setitem", "iop", "uout", "orient", "ftrans", "newf", "dropf", "fout", "geom", "reject", "newt"}


def run(ctx):
    ctx.assumptions += ["float comparison tolerance 1e-7 relative", "axes are rationals bounded by Nice"]
    framescheck.run(ctx, ACTS,
        sims=[("4d", 4, {"V"}, {0}, 12, 1, 80, 1500, 12),
              ("3d", 3, {"V", "T2"}, {0}, 12, 1, 400, 8000, 14),
              ("2d", 2, {"V"}, {0}, 12, 1, 200, 4000, 14)],
        exhaustive=[("2d single steps", 2, {"V"}, {0})],
        deep=[("2d depth 2", 2, {"V"}, {0}, 2), ("3d depth 1", 3, {"V"}, {0}, 1)])
