import copy
import tlc
from genericcheck import selftest

INV = ["Size", "EachOnce", "Slowest", "InRange", "Asked", "Lexi"]


def corrupt(t, rng):
    t = copy.deepcopy(t)
    v = rng.choice(t["log"])["v"]
    v[0] += v[1]
    return t


def run(ctx):
    ctx.assumptions += ["up to 40 points in one dimension, 16 x 16 in two, 9 x 9 x 9 in three; integrals compared to 1e-10"]
    q = ctx.quick
    for n, d in [(3, 3)] + ([] if q else [(5, 3)]):
        name = f"all rules up to {n} points on {d} axes"
        t = tlc.check_ok(tlc.run("Gauss", dict(Depth=1, Sim=False, MaxN=n, MaxD=d), invariants=INV, view="View", workers=8, timeout=3000, heap="10g"), name)
        ctx.add_tlc(t, name, exhaustive=True)
        ctx.log(f"{name}: {t.distinct}")
    recs = []
    for mx, d, nq, nt in [(9, 1, 40, 200), (6, 2, 80, 600), (4, 3, 120, 800), (40, 1, 60, 400), (16, 2, 40, 300), (9, 3, 24, 200)]:
        name = f"rules up to {mx} points on up to {d} axes"
        t = tlc.simulate("Gauss", dict(Depth=10 if q else 25, Sim=True, MaxN=mx, MaxD=d), nq if q else nt, 60, seed=ctx.seed * 23 + mx, procs=2 if q else 8, invariants=(INV if mx < 5 or not q and mx < 9 else ["Size", "Asked", "InRange"]) + ["Emit"], what=name, timeout=1500, min_records=10)
        ctx.add_tlc(t, name)
        ctx.count("behaviours", name, len(t.records))
        for r in t.records:
            ctx.count("rules", "x".join(map(str, r["axes"])), 1)
        ctx.sample(dict(axes=t.records[0]["axes"], log=t.records[0]["log"][:2]))
        recs += t.records
        ctx.log(f"{name}: {len(t.records)}")
    if not ctx.replay_all("gauss", recs, procs=8):
        return
    ctx.log(f"{len(recs)} behaviours replayed")
    selftest(ctx, "gauss", recs, corrupt)
