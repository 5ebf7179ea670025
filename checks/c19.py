import copy
import tlc
from genericcheck import selftest

INV = ["Nodal", "Unity", "Reproduction", "Degree"]


def corrupt(t, rng):
    t = copy.deepcopy(t)
    e = rng.choice(t["log"])
    if rng.random() < 0.5:
        b = rng.choice(e["b"])[rng.randrange(4)]
        b[0] += b[1]
    else:
        e["f"][0] += e["f"][1]
    return t


def run(ctx):
    ctx.assumptions += ["integer nodes and their images under affine maps; up to 7 nodes (symbolic nodes: up to 3); results compared to 1e-7 relative"]
    q = ctx.quick
    for n, sp in [(3, 2)] + ([] if q else [(4, 2), (3, 4)]):
        name = f"all bases with up to {n} nodes within {sp}"
        t = tlc.check_ok(tlc.run("Lagrange", dict(Depth=1, Sim=False, MinNodes=1, MaxNodes=n, Span=sp), invariants=INV, view="View", workers=8, timeout=3000, heap="10g"), name)
        ctx.add_tlc(t, name, exhaustive=True)
        ctx.log(f"{name}: {t.distinct}")
    recs = []
    for mx, sp, nq, nt in [(3, 4, 30, 400), (4, 4, 24, 400), (5, 3, 12, 250), (7, 4, 12, 150)]:
        name = f"bases with up to {mx} nodes"
        t = tlc.simulate("Lagrange", dict(Depth=3 if mx < 6 else 1, Sim=True, MinNodes=1 if mx < 6 else 6, MaxNodes=mx, Span=sp), nq if q else nt, 40, seed=ctx.seed * 19 + mx, procs=2 if q else 8, invariants=INV + ["Emit"], what=name, timeout=1500, min_records=10)
        ctx.add_tlc(t, name)
        ctx.count("behaviours", name, len(t.records))
        for r in t.records:
            for e in r["log"]:
                ctx.count("observed bases", f"{len(e['nodes'])} nodes", 1)
        ctx.sample(t.records[0]["log"][-1])
        recs += t.records
        ctx.log(f"{name}: {len(t.records)}")
    if not ctx.replay_all("lagrange1d", recs, procs=8):
        return
    ctx.log(f"{len(recs)} behaviours replayed")
    selftest(ctx, "lagrange1d", recs, corrupt)
